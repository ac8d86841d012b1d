----------------------------- MODULE Convergence -----------------------------
(* When two successive iterates count as a solution.                         *)
(*                                                                           *)
(* x and y are vectors of unknowns, the last iterate and the one before: the *)
(* first nv of them are node voltages, the rest branch currents.             *)
EXTENDS Num

Within(x, y, reltol, abstol) ==
    NLe(NAbs(NSub(x, y)), NAdd(NMul(reltol, NAbs(x)), abstol))

Outcome(x, y, nv, reltol, vntol, abstol) ==
    IF \E n \in 1..Len(x) : ~ NFinite(x[n]) THEN "error"
    ELSE IF \A n \in 1..Len(x) : Within(x[n], y[n], reltol, IF n <= nv THEN vntol ELSE abstol)
    THEN "agree" ELSE "differ"
===============================================================================
