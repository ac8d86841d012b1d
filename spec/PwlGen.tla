-------------------------------- MODULE PwlGen --------------------------------
(* All PWL cards with breakpoints on a small grid.  Checked on the way: the  *)
(* waveform goes through its breakpoints, is nothing before its delay, and   *)
(* is periodic or constant after its last breakpoint.                        *)
EXTENDS Sources, Deck, Naturals, TLC, Json
CONSTANTS LastTime, MaxPoints
Values == {"0", "1", "-2.5"}
Delays == {"", " td=1", " td=2.5", " td=-0.5"}
Repeats == {"", " r=0", " r=-1", " r=2", " r=0.5"}
VARIABLES pts, card
Init == pts = << >> /\ card = ""
AddPoint == /\ card = "" /\ Len(pts) < MaxPoints
            /\ \E t \in 0..LastTime, v \in Values :
                 /\ IF pts = << >> THEN TRUE ELSE pts[Len(pts)][1] < t
                 /\ pts' = Append(pts, <<t, v>>)
            /\ UNCHANGED card
Finish == /\ card = "" /\ pts # << >>
          /\ \E d \in Delays, r \in Repeats :
               card' = "V1 1 0 PWL(" \o
                       FoldLeft(LAMBDA s, p : (IF s = "" THEN "" ELSE s \o ", ") \o ToString(p[1]) \o ", " \o p[2], "", pts)
                       \o ")" \o r \o d
          /\ UNCHANGED pts
Next == AddPoint \/ Finish
Spec == Init /\ [][Next]_<<pts, card>>

Words1 == TLCEval(ReadAll(StartReading("d"), [f \in {"d"} |-> <<"title", card>>]).ckts[1].cards[1].w)
Lawful == card # "" => \E W \in {Words1} :
    LET At(t) == Pwl(W, t)
        Period == PwlPeriod(W)
        Repeating == PwlRepeats(W) /\ NLt(N0, Period)
        after(t) == NAdd(W[1], t)
    IN /\ \A p \in 1..PwlPoints(W) :
             NEq(At(after(PwlTime(W, p))),
                 IF Repeating /\ p = PwlPoints(W) THEN At(W[1]) ELSE PwlValue(W, p))
       /\ NLt(N0, W[1]) => NEq(At("0.5"), N0)
       /\ \A t \in {"0.25", "1.0", "2.75"} :
             IF Repeating THEN NNear(At(NAdd(after(t), Period)), At(after(t)), "1e-12", "1e-12")
             ELSE NEq(At(NAdd(after(t), NAdd(Period, N1))), PwlValue(W, PwlPoints(W)))
Printed == card # "" => PrintT("CASE " \o ToJson([card |-> card]))
===============================================================================
