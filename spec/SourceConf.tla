------------------------------- MODULE SourceConf -------------------------------
(* Values of sources at many times.  A case is [id, card, ts, status, ys]:   *)
(* the card of one source, times, and what the source was found to be there. *)
EXTENDS Sources, Deck, Verdicts
VARIABLES i, n, src, bad, note
vars == <<i, n, src, bad, note>>

Case == Cases[i]
File == [f \in {"d"} |-> <<"title", Case.card>>]
Read1 == ReadAll(StartReading("d"), File)

Init == i \in 1..Len(Cases) /\ n = 0 /\ src = << >> /\ bad = "" /\ note = ""

\* a source's value may be that of either side of a jump if its time is
\* within rounding of it
Eps == "4e-15"
Largest(w) == FoldLeft(LAMBDA m, y : NMax(m, NAbs(y)), N0, w)
Blur(kind, w, t) ==
    LET dt == NMul(Eps, NMax(NAbs(t), IF kind = "VPWL" THEN NAdd(NAbs(w[1]), NAbs(PwlPeriod(w))) ELSE N0))
        size == IF kind = "VPWL" THEN Largest(w)
                ELSE NMul(NMax(NAbs(w[1]), NAbs(w[2])), NAdd(N1, NMul(NMul(TwoPi, NAbs(w[3])), NAbs(t))))
    IN NAdd(NMul("1e-14", size), IF kind = "VPWL" THEN SourceBlur(kind, w, t, dt) ELSE N0)

Start ==
    /\ n = 0 /\ src = << >> /\ bad = "" /\ note = ""
    /\ LET r == TLCEval(Read1)
       IN IF r.status = "rejected" \/ r.loose
          THEN /\ note' = IF r.loose THEN "loose" ELSE "refused"
               /\ bad' = IF r.loose \/ Case.status # "ok" THEN "" ELSE "accepted " \o Case.card
               /\ n' = n /\ src' = src
          ELSE IF Case.status # "ok"
          THEN bad' = "refused a good card" /\ note' = "ok" /\ n' = n /\ src' = src
          ELSE src' = r.ckts[1].cards[1] /\ n' = 1 /\ note' = "ok" /\ bad' = ""
    /\ UNCHANGED i

Step ==
    /\ n >= 1 /\ n <= Len(Case.ts) /\ bad = ""
    /\ LET s == src
           t == Case.ts[n]
           y == Case.ys[n]
           want == TLCEval(SourceAt(s.kind, s.w, t))
       IN bad' = IF ~ NFinite(y) THEN "value at " \o t \o " is not finite"
                 ELSE IF NLe(NAbs(NSub(y, want)), Blur(s.kind, s.w, t)) THEN ""
                 ELSE "value at " \o t \o " is " \o y \o " instead of " \o want
    /\ n' = n + 1
    /\ UNCHANGED <<i, src, note>>

Next == Start \/ Step
Spec == Init /\ [][Next]_vars
Over == bad # "" \/ (note # "" /\ (n = 0 \/ n > Len(Case.ts)))
Verdict == Over => Report(Case, bad, note)
=================================================================================
