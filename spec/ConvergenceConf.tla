--------------------------- MODULE ConvergenceConf ---------------------------
(* What the solver said of pairs of iterates, against Convergence.  A case   *)
(* is [id, nv, tol = <<RELTOL, VNTOL, ABSTOL>>, x, y, res].                  *)
EXTENDS Convergence, Verdicts
VARIABLES i, said
Init == i \in 1..Len(Cases) /\ said = "nothing"
Next == /\ said = "nothing"
        /\ said' = LET c == Cases[i] IN Outcome(c.x, c.y, c.nv, c.tol[1], c.tol[2], c.tol[3])
        /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, said>>
Verdict == said # "nothing" =>
    LET c == Cases[i]
    IN Report(c, IF said = c.res THEN "" ELSE "iterates are said to " \o c.res \o ", where they " \o said, said)
===============================================================================
