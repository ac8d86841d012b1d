------------------------------ MODULE SessionConf ------------------------------
(* Recorded sessions.  A case is [id, runs, got, alone, before, after]:      *)
(* runs is a sequence of <<deck, kind>>, got[n] what the n-th run gave in    *)
(* the session, alone[n] what the same analysis gives on a fresh engine, and *)
(* before and after each deck's circuit and settings around the session.     *)
EXTENDS Session, Verdicts
VARIABLES i, n, memo, bad
vars == <<i, n, memo, bad>>
Case == Cases[i]
Init == i \in 1..Len(Cases) /\ n = 0 /\ memo = << >> /\ bad = ""

Fields == {"status", "errors", "end", "iters", "x", "wave", "log"}
Differs(a, b) == {f \in Fields : a[f] # b[f]}
Known(d, k) == {m \in 1..Len(memo) : memo[m].d = d /\ memo[m].k = k}

\* the engine runs an analysis: it gives what it gives alone, which is also
\* what it gave before
Run ==
    /\ bad = "" /\ n < Len(Case.runs)
    /\ LET d == Case.runs[n + 1][1]
           k == Case.runs[n + 1][2]
           off == Differs(Case.got[n + 1], Case.alone[n + 1])
           again == {m \in Known(d, k) : Differs(memo[m].got, Case.got[n + 1]) # {}}
       IN /\ bad' = IF off # {} THEN ToString(k) \o " of deck " \o ToString(d) \o " as number " \o ToString(n + 1)
                                      \o " differs from a fresh engine's in " \o ToString(off)
                    ELSE IF again # {} THEN "repeated analysis differs" ELSE ""
          /\ memo' = Append(memo, [d |-> d, k |-> k, got |-> Case.got[n + 1]])
    /\ n' = n + 1 /\ UNCHANGED i

\* the decks are as they were
End ==
    /\ bad = "" /\ n = Len(Case.runs)
    /\ bad' = IF Case.before # Case.after THEN "circuit or settings changed" ELSE ""
    /\ n' = n + 1 /\ UNCHANGED <<i, memo>>

Next == Run \/ End
Spec == Init /\ [][Next]_vars
Verdict == (bad # "" \/ n > Len(Case.runs)) => Report(Case, bad, "compared")
================================================================================
