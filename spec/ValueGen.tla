------------------------------- MODULE ValueGen -------------------------------
(* All texts over an alphabet up to a length, by the automaton of Value.     *)
(* Checked on the way: the automaton reads exactly the numbers of the        *)
(* grammar, which is given here by cutting the text in pieces.               *)
EXTENDS Value, Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Alphabet, MaxLength
Characters == {"0", "7", ".", "e", "+", "-", "k", "m", "u", "n", "p", "x"}
Exponent == {"1", "0", "e", "-"}
FewCharacters == {"3", ".", "e", "-", "m", "V"}
VARIABLES text, a
vars == <<text, a>>
Init == text = "" /\ a = Initial
Next == /\ Len(text) < MaxLength
        /\ \E c \in Alphabet : /\ text' = text \o c
                               /\ a' = IF a.st \in {"stop", "none"} THEN a ELSE StepOn(a, c, Len(text) + 1)
Spec == Init /\ [][Next]_vars

Piece(i, j) == SubSeq(text, i, j)
Digits(i, j) == j >= i /\ AllIn(Piece(i, j), Digit)
Signed(i) == i <= Len(text) /\ Ch(text, i) \in {"+", "-"}
\* ends of the decimal numbers at the start of text, without their exponents
From == IF Signed(1) THEN 2 ELSE 1
Decimals == {j \in 1..Len(text) :
    \/ Digits(From, j)
    \/ \E p \in From..j : Ch(text, p) = "." /\ (p = j \/ Digits(p + 1, j))
          /\ (Digits(From, p - 1) \/ (From = 2 /\ p = 2 /\ j > p)) }
Longest(S) == CHOOSE j \in S : \A k \in S : k <= j
\* ends of exponents that start after j
Exponents(j) == {k \in (j + 2)..Len(text) : Ch(text, j + 1) = "e"
    /\ (Digits(j + 2, k) \/ (Signed(j + 2) /\ Digits(j + 3, k)))}
Grammar ==
    IF Decimals = {} THEN [ok |-> FALSE, end |-> 0, scale |-> "1.0"]
    ELSE LET d == Longest(Decimals)
             next == IF d < Len(text) THEN Ch(text, d + 1) ELSE ""
         IN IF next = "e"
            THEN IF Exponents(d) = {} THEN [ok |-> FALSE, end |-> 0, scale |-> "1.0"]
                 ELSE [ok |-> TRUE, end |-> Longest(Exponents(d)), scale |-> "1.0"]
            ELSE [ok |-> TRUE, end |-> d, scale |-> IF next \in DOMAIN Scale THEN Scale[next] ELSE "1.0"]
Reads ==
    /\ Grammar.ok = (a.st \in Accepting)
    /\ Grammar.ok => a.end = Grammar.end /\ a.scale = Grammar.scale
Printed == PrintT("CASE " \o ToJson([text |-> text]))
================================================================================
