---------------------------- MODULE ConvergenceGen ----------------------------
(* All pairs of iterates in which every unknown is well within, just within, *)
(* at, just beyond or far beyond its limit, or not finite.  The tolerances   *)
(* are powers of two, so that "at" is exact.  Checked on the way: Outcome    *)
(* never lets one unknown hide another.                                      *)
EXTENDS Convergence, Naturals, Sequences, TLC, Json
CONSTANTS MaxNodes, MaxCurrents

RelTol == "0.125"
VnTol  == "0.0625"
AbsTol == "0.015625"

Kinds == {"same", "within", "at", "beyond", "other", "nan", "inf", "minus", "was"}
Limit(cur) == NAdd(NMul(RelTol, "2.0"), IF cur THEN AbsTol ELSE VnTol)
\* x and y for an unknown of this kind; sign flips every other unknown
Pair(kind, cur, neg) ==
    LET s(v) == IF neg THEN NNeg(v) ELSE v
        l == Limit(cur)
    IN CASE kind = "same"   -> <<s("2.0"), s("2.0")>>
         [] kind = "within" -> <<s("2.0"), s(NSub("2.0", NMul(l, "0.999999")))>>
         [] kind = "at"     -> <<s("2.0"), s(NAdd("2.0", l))>>
         [] kind = "beyond" -> <<s("2.0"), s(NAdd("2.0", NMul(l, "1.000001")))>>
         [] kind = "other"  -> <<s("2.0"), s("-2.0")>>
         [] kind = "nan"    -> <<"NaN", s("2.0")>>
         [] kind = "inf"    -> <<s("Infinity"), s("2.0")>>
         [] kind = "minus"  -> <<s("-Infinity"), s("-Infinity")>>
         [] kind = "was"    -> <<s("2.0"), "NaN">>

VARIABLES nv, ks, done
vars == <<nv, ks, done>>
Init == nv \in 1..MaxNodes /\ ks = << >> /\ done = FALSE
Total(n) == n + MaxCurrents
Add == /\ ~ done /\ Len(ks) < Total(nv)
       /\ \E k \in Kinds : ks' = Append(ks, k)
       /\ UNCHANGED <<nv, done>>
Finish == ~ done /\ Len(ks) \in nv..Total(nv) /\ done' = TRUE /\ UNCHANGED <<nv, ks>>
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars

Xs == [n \in 1..Len(ks) |-> Pair(ks[n], n > nv, n % 2 = 0)[1]]
Ys == [n \in 1..Len(ks) |-> Pair(ks[n], n > nv, n % 2 = 0)[2]]
Out == Outcome(Xs, Ys, nv, RelTol, VnTol, AbsTol)

Bad == {"nan", "inf", "minus"}
Sound == done =>
    /\ Out = "error" <=> \E n \in 1..Len(ks) : ks[n] \in Bad
    /\ Out = "agree" <=> \A n \in 1..Len(ks) : ks[n] \in {"same", "within", "at"}
Printed == done => PrintT("CASE " \o ToJson([nv |-> nv, tol |-> <<RelTol, VnTol, AbsTol>>, x |-> Xs, y |-> Ys]))
===============================================================================
