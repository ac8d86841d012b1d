------------------------------- MODULE Sources -------------------------------
(* Waveforms of independent sources. *)
EXTENDS Num, Sequences

TwoPi == "6.283185307179586"

Sin(w, t) == NAdd(w[1], NMul(w[2], NSin(NMul(NMul(TwoPi, w[3]), t))))

(* w = <<delay, repeat, t1, v1, ..., tn, vn>>, t1 < t2 < ... < tn           *)
PwlPoints(w)    == (Len(w) - 2) \div 2
PwlTime(w, i)   == w[1 + 2 * i]
PwlValue(w, i)  == w[2 + 2 * i]
PwlPeriod(w)    == PwlTime(w, PwlPoints(w))
PwlRepeats(w)   == NLe(N0, w[2])

\* the pattern itself, at 0 <= t <= its period
PwlPattern(w, t) ==
    LET n == PwlPoints(w)
        i == CHOOSE k \in 1..n : NLe(t, PwlTime(w, k)) /\ (k = 1 \/ NLt(PwlTime(w, k - 1), t))
    IN IF NEq(t, PwlTime(w, i)) THEN PwlValue(w, i)
       ELSE IF i = 1    \* before the first breakpoint: from 0 V at time 0
       THEN NMul(PwlValue(w, 1), NDiv(t, PwlTime(w, 1)))
       ELSE LET t1 == PwlTime(w, i - 1)  v1 == PwlValue(w, i - 1)
                t2 == PwlTime(w, i)      v2 == PwlValue(w, i)
            IN NAdd(v1, NMul(NSub(v2, v1), NDiv(NSub(t, t1), NSub(t2, t1))))

Pwl(w, t) ==
    LET tp == NSub(t, w[1])
    IN IF NLt(tp, N0) THEN N0
       ELSE IF PwlRepeats(w) /\ NLt(N0, PwlPeriod(w)) THEN PwlPattern(w, NRem(tp, PwlPeriod(w)))
       ELSE IF NLe(PwlPeriod(w), tp) THEN PwlValue(w, PwlPoints(w))
       ELSE PwlPattern(w, tp)

\* value of an independent source of the given kind
SourceAt(kind, w, t) ==
    CASE kind \in {"V", "I"} -> w[1]
      [] kind \in {"VSIN", "ISIN"} -> Sin(w, t)
      [] kind = "VPWL" -> Pwl(w, t)

\* how much that value can be off when t is only known to within dt; also at
\* a jump of a repeated pattern, which may be on either side of t
SourceBlur(kind, w, t, dt) ==
    IF kind \in {"V", "I"} \/ NEq(dt, N0) THEN N0
    ELSE LET at(k) == SourceAt(kind, w, NAdd(t, NMul(k, dt)))
             apart(k, l) == NAbs(NSub(at(k), at(l)))
         IN NAdd(NAdd(apart("1.0", N0), apart("-1.0", N0)),
                 NAdd(apart("2.0", "1.0"), apart("-2.0", "-1.0")))
=============================================================================
