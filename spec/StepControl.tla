------------------------------ MODULE StepControl ------------------------------
(* The timestep control of the transient analysis.                           *)
(*                                                                           *)
(* Quantities (times) are abstract: the arithmetic is given by the operators *)
(* below, so that the same actions can be explored by TLC over integers      *)
(* (StepControlMC.tla) and followed along recorded runs over doubles         *)
(* (Conf.tla).                                                               *)
(*                                                                           *)
(* p = [TSTEP, TSTOP, FS, FT, RMIN, RMAX, ITL3, ITL4]: the limits.           *)
(* s = [st, t, dt, left, geared]: what the control knows                     *)
(*    st     "ready" to choose a step, "trying" one, "done" or "failed"      *)
(*    t      time of the last solution                                       *)
(*    dt     the step being tried, or the candidate for the next one         *)
(*    left   time left to the stop time when the step was chosen             *)
(*    geared the step has been cut back                                      *)
EXTENDS Integers

CONSTANTS Plus(_, _), Minus(_, _), Scaled(_, _), AtMost(_, _), Less(_, _), Zero,
          Closes(_, _)    \* Closes(dt, left): a step of dt gets to the stop time

Smaller(a, b) == IF AtMost(a, b) THEN a ELSE b

MaxStep(p)   == Scaled(p.RMAX, p.TSTEP)
MinStep(p)   == Scaled(p.RMIN, p.TSTEP)
FirstStep(p) == Smaller(Scaled(p.FS, p.TSTEP), MaxStep(p))

Start(p) == [st |-> "ready", t |-> Zero, dt |-> FirstStep(p), left |-> Zero, geared |-> FALSE]

(* Choose the length of the next step, or find that there is nothing to do *)
Choose(s, p) ==
    IF AtMost(p.TSTOP, s.t) THEN [s EXCEPT !.st = "done"]
    ELSE IF AtMost(s.dt, Zero) THEN [s EXCEPT !.st = "failed"]
    ELSE LET left == Minus(p.TSTOP, s.t)
         IN [s EXCEPT !.st = "trying", !.left = left, !.geared = FALSE,
                      !.dt = IF Closes(s.dt, left) THEN left ELSE s.dt]

(* The solver agreed with itself after n iterations: accept the step *)
Easy(n, p) == n < p.ITL3
Longer(dt, p) == Smaller(Plus(dt, dt), MaxStep(p))
Accept(s, p, easy) ==
    [s EXCEPT !.st = "ready",
              !.t  = IF s.dt = s.left THEN p.TSTOP ELSE Plus(s.t, s.dt),
              !.dt = IF ~ s.geared /\ easy THEN Longer(s.dt, p) ELSE s.dt]

(* ITL4 iterations without agreement: try a shorter step, or give up *)
CutBack(s, p) ==
    LET dt == Scaled(p.FT, s.dt)
    IN IF Less(dt, MinStep(p)) THEN [s EXCEPT !.st = "failed"]
       ELSE [s EXCEPT !.dt = dt, !.geared = TRUE]

(* The arithmetic broke down *)
Break(s) == [s EXCEPT !.st = "failed"]
=============================================================================
