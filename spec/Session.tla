-------------------------------- MODULE Session --------------------------------
(* An engine that runs one analysis after another.                           *)
(*                                                                           *)
(* What an analysis gives is a function of the circuit, the settings and the *)
(* kind of analysis alone.  The engine of the code is built up anew for each *)
(* analysis (elaborate), then solved; forgotten says whether what was built  *)
(* for the analysis before is forgotten first.  SessionMC checks that this   *)
(* is what makes the outcomes independent of the history.                    *)
EXTENDS Naturals, Sequences

\* an engine holds the elements that it has been given, by circuit
Elaborated(held, circuit, forgotten) == IF forgotten THEN {circuit} ELSE held \cup {circuit}
Solves(held) == held       \* the solution is that of everything held
================================================================================
