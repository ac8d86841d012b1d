------------------------------- MODULE ValueConf -------------------------------
(* What value texts were read as.  A case is [id, text, res, val], res being *)
(* value, none or stopped.  The automaton of Value follows the text.         *)
EXTENDS Value, Verdicts
VARIABLES i, a, n
vars == <<i, a, n>>
Init == i \in 1..Len(Cases) /\ a = Initial /\ n = 1
Text == Cases[i].text
Over == n > Len(Text) \/ a.st \in {"stop", "none"}
Next == /\ ~ Over
        /\ a' = StepOn(a, Ch(Text, n), n) /\ n' = n + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Wrong ==
    LET c == Cases[i]
        r == ReadValue(Text)
        same == NSame(c.val, r.val)
    IN IF r.ok /\ ~ r.bare
       THEN (IF c.res # "value" THEN "no value for a number"
             ELSE IF ~ same THEN "value " \o c.val \o " instead of " \o r.val ELSE "")
       ELSE IF r.ok THEN (IF c.res = "value" /\ ~ same THEN "value " \o c.val \o " instead of " \o r.val ELSE "")
       ELSE IF c.res = "value" THEN "value " \o c.val \o " for a text that is not a number" ELSE ""
Verdict == Over => Report(Cases[i], Wrong, IF a.st \in Accepting THEN "number" ELSE "no number")
================================================================================
