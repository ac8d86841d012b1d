-------------------------------- MODULE StepGen --------------------------------
(* Whole transient analyses of a circuit whose only unknown is a stepped     *)
(* source's level: every sequence of levels, under every setting of the      *)
(* limits.  What each try comes to follows from the levels - the solver      *)
(* agrees with itself at once where the level is 0, after a second iteration *)
(* where it stays at another one, never at one that sticks (its tolerance is *)
(* negative), and breaks down at a wild one - so the whole analysis is       *)
(* worked out here: the times of the rows, the end, the iterations and the   *)
(* outcome.  Each one is printed, to be run by the code.                     *)
(*                                                                           *)
(* Times count units of 1/4096 s; factors are [n, d]: n/d.  All of it is     *)
(* exact in doubles too, unless a cut leaves a remainder (whole).            *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Steps, Stops, Starts, Firsts, Cuts, Mins, Maxs, Easies, Limits, Spans, Levels, MaxLevels

FirstsHere == {<<1, 4>>, <<1, 1>>}
CutsHere   == {<<1, 4>>, <<1, 2>>}
MinsHere   == {<<1, 16>>, <<1, 4>>}
MaxsHere   == {<<1, 2>>, <<1, 1>>, <<5, 1>>}
FirstsAll  == {<<1, 4>>, <<1, 2>>, <<1, 1>>, <<4, 1>>}
CutsAll    == {<<1, 4>>, <<1, 2>>, <<1, 1>>}
MinsAll    == {<<1, 64>>, <<1, 8>>, <<1, 1>>}
MaxsAll    == {<<1, 4>>, <<1, 2>>, <<1, 1>>, <<2, 1>>, <<5, 1>>}

Wild == 9
Stuck == 7

VARIABLES p, levels, s, y, n, rows, its, whole
vars == <<p, levels, s, y, n, rows, its, whole>>

SC == INSTANCE StepControl WITH
        Plus   <- LAMBDA a, b : a + b,
        Minus  <- LAMBDA a, b : a - b,
        Scaled <- LAMBDA f, a : (f[1] * a) \div f[2],
        AtMost <- LAMBDA a, b : a <= b,
        Less   <- LAMBDA a, b : a < b,
        Zero   <- 0,
        Closes <- LAMBDA dt, left : dt >= left

\* the source changes within the unit after each span
Level(t) == LET k == (IF t = 0 THEN 0 ELSE (t - 1) \div p.span) + 1
            IN levels[IF k > Len(levels) THEN Len(levels) ELSE k]

Init ==
    /\ p \in [TSTEP : Steps, TSTOP : Stops, start : Starts, FS : Firsts, FT : Cuts, RMIN : Mins,
              RMAX : Maxs, ITL3 : Easies, ITL4 : Limits, span : Spans]
    /\ levels \in UNION {[1..m -> Levels] : m \in 1..MaxLevels}
    /\ levels[1] \notin {Wild, Stuck}
    /\ \A m \in 1..(Len(levels) - 1) : levels[m] # levels[m + 1]
    /\ (Len(levels) - 1) * p.span < p.TSTOP
    /\ s = SC!Start(p)
    /\ y = 0 /\ n = 0 /\ rows = <<0>> /\ its = 0 /\ whole = TRUE

Choose == /\ s.st = "ready"
          /\ s' = SC!Choose(s, p)
          /\ y' = 0 /\ n' = 0
          /\ UNCHANGED <<p, levels, rows, its, whole>>

Try == /\ s.st = "trying"
       /\ its' = its + 1
       /\ whole' = (whole /\ (n + 1 >= p.ITL4 => (p.FT[1] * s.dt) % p.FT[2] = 0))
       /\ UNCHANGED <<p, levels>>
       /\ LET x == Level(s.t + s.dt)
              m == n + 1
          IN IF x = Wild
             THEN s' = SC!Break(s) /\ UNCHANGED <<y, n, rows>>
             ELSE IF x = y /\ x # Stuck
             THEN LET a == SC!Accept(s, p, SC!Easy(m, p))
                  IN /\ s' = a
                     /\ rows' = IF a.t >= p.start THEN Append(rows, a.t) ELSE rows
                     /\ UNCHANGED <<y, n>>
             ELSE /\ y' = x
                  /\ UNCHANGED rows
                  /\ IF m >= p.ITL4 THEN s' = SC!CutBack(s, p) /\ n' = 0
                     ELSE s' = s /\ n' = m

Next == Choose \/ Try
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Ended == s.st \in {"done", "failed"}

\* C04
Increases == \A k \in 1..(Len(rows) - 1) : rows[k] < rows[k + 1]
Within    == s.t <= p.TSTOP /\ \A k \in 2..Len(rows) : rows[k] >= p.start
Bounded   == p.start = 0 => \A k \in 1..(Len(rows) - 1) : rows[k + 1] - rows[k] <= SC!MaxStep(p)
FirstOK   == p.start = 0 /\ Len(rows) > 1 => rows[2] <= SC!FirstStep(p)
AtStop    == s.st = "done" => s.t = p.TSTOP /\ (p.start <= p.TSTOP => rows[Len(rows)] = p.TSTOP)
\* C05: it fails at a wild level, or when the step has become too short
Reason    == s.st = "failed" =>
                /\ s.t < p.TSTOP
                /\ \/ \E k \in 1..Len(levels) : levels[k] = Wild
                   \/ \E k \in 1..Len(levels) : levels[k] # 0
\* nothing to do twice: no run without a way to fail does
Completes == (p.ITL4 > 1 /\ \A k \in 1..Len(levels) : levels[k] \notin {Wild, Stuck}) => s.st # "failed"

Printed == Ended /\ whole => PrintT("CASE " \o ToJson(
    [p |-> p, levels |-> levels, rows |-> rows, end |-> s.t, its |-> its, done |-> s.st = "done"]))
================================================================================
