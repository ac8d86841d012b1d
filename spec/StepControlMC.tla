----------------------------- MODULE StepControlMC -----------------------------
(* Step control over integers, for every outcome of every solution attempt.  *)
(* Factors are [n, d]: n/d.                                                  *)
EXTENDS Integers, TLC

CONSTANTS Steps, Stops, Firsts, Cuts, Mins, Maxs, Easies, Limits

\* values for the configurations
FirstsHere == {<<1, 4>>, <<1, 1>>}
CutsHere   == {<<1, 4>>, <<1, 2>>}
MinsHere   == {<<1, 8>>, <<1, 2>>}
MaxsHere   == {<<1, 2>>, <<1, 1>>, <<5, 1>>}

VARIABLES s, p, n, accepted, gave   \* accepted: length of the last accepted step
vars == <<s, p, n, accepted, gave>>

SC == INSTANCE StepControl WITH
        Plus   <- LAMBDA a, b : a + b,
        Minus  <- LAMBDA a, b : a - b,
        Scaled <- LAMBDA f, a : (f[1] * a) \div f[2],
        AtMost <- LAMBDA a, b : a <= b,
        Less   <- LAMBDA a, b : a < b,
        Zero   <- 0,
        Closes <- LAMBDA dt, left : dt >= left

Init ==
    /\ p \in [TSTEP : Steps, TSTOP : Stops, FS : Firsts, FT : Cuts, RMIN : Mins,
              RMAX : Maxs, ITL3 : Easies, ITL4 : Limits]
    /\ SC!MinStep(p) >= 1
    /\ s = SC!Start(p)
    /\ n = 0 /\ accepted = 0 /\ gave = FALSE

Choose == /\ s.st = "ready"
          /\ s' = SC!Choose(s, p)
          /\ n' = 0
          /\ UNCHANGED <<p, accepted, gave>>

\* one more iteration, that doesn't agree with the one before it
Iterate == /\ s.st = "trying" /\ n + 1 < p.ITL4
           /\ n' = n + 1
           /\ UNCHANGED <<s, p, accepted, gave>>

Agree == /\ s.st = "trying"
         /\ s' = SC!Accept(s, p, SC!Easy(n + 1, p))
         /\ accepted' = s.dt
         /\ n' = 0
         /\ UNCHANGED <<p, gave>>

Cut == /\ s.st = "trying" /\ n + 1 >= p.ITL4
       /\ s' = SC!CutBack(s, p)
       /\ n' = 0
       /\ UNCHANGED <<p, accepted, gave>>

Break == /\ s.st = "trying"
         /\ s' = SC!Break(s)
         /\ gave' = TRUE
         /\ UNCHANGED <<p, n, accepted>>

Next == Choose \/ Iterate \/ Agree \/ Cut \/ Break
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Ended == s.st \in {"done", "failed"}

TypeOK == /\ s.st \in {"ready", "trying", "done", "failed"}
          /\ s.t \in 0..p.TSTOP
          /\ n \in 0..p.ITL4

\* C04
Bounded == accepted <= SC!MaxStep(p) /\ (s.st = "trying" => s.dt <= SC!MaxStep(p))
Within  == s.t <= p.TSTOP
AtStop  == s.st = "done" => s.t = p.TSTOP
Forward == [][s'.t # s.t => s'.t > s.t /\ s'.t - s.t = accepted']_vars
FirstOK == (s.st = "trying" /\ s.t = 0) => s.dt <= SC!FirstStep(p)
\* C05
Short   == s.st = "failed" => s.t < p.TSTOP
Pushing == s.st = "trying" => s.dt > 0
Doubles == [][(s.st = "trying" /\ s'.st = "ready")
                => s'.dt = (IF ~ s.geared /\ n + 1 < p.ITL3
                            THEN (IF 2 * s.dt <= SC!MaxStep(p) THEN 2 * s.dt ELSE SC!MaxStep(p))
                            ELSE s.dt)]_vars
NoLoss  == [][s'.st = "failed" => s'.t = s.t]_vars
Reason  == [][(s'.st = "failed" /\ s.st = "trying")
                => (gave' \/ (p.FT[1] * s.dt) \div p.FT[2] < SC!MinStep(p))]_vars
Ends    == <>Ended
=============================================================================
