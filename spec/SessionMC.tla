------------------------------- MODULE SessionMC -------------------------------
(* All short sessions over a few circuits; printed for the real engine, and  *)
(* checked to have outcomes that don't depend on their history.              *)
EXTENDS Session, TLC, Json
CONSTANTS Decks, MaxRuns, Forgets
Kinds == {"op", "tran"}
VARIABLES held, runs, outcomes
vars == <<held, runs, outcomes>>
Init == held = {} /\ runs = << >> /\ outcomes = << >>
Run(d, k) == /\ Len(runs) < MaxRuns
             /\ held' = Elaborated(held, d, Forgets)
             /\ runs' = Append(runs, <<d, k>>)
             /\ outcomes' = Append(outcomes, <<Solves(held'), k>>)
Next == \E d \in Decks, k \in Kinds : Run(d, k)
Spec == Init /\ [][Next]_vars
Independent == \A n \in 1..Len(runs) : outcomes[n] = <<{runs[n][1]}, runs[n][2]>>
Printed == Len(runs) > 0 => PrintT("CASE " \o ToJson([runs |-> runs]))
================================================================================
