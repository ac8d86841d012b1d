-------------------------------- MODULE Value --------------------------------
(* The number reader: an automaton over the characters of a value text.      *)
(*                                                                           *)
(*   value ::= [sign] digit+ [ "." digit* ] [ exponent | scale ] [ anything ]*)
(*   exponent ::= "e" [sign] digit+        scale ::= k | m | u | n | p       *)
EXTENDS Num, Text

Scale == [c \in {"k", "m", "u", "n", "p"} |->
            CASE c = "k" -> "1e3"  [] c = "m" -> "1e-3" [] c = "u" -> "1e-6"
              [] c = "n" -> "1e-9" [] c = "p" -> "1e-12"]

States == {"start", "sign", "int", "point", "frac", "exp", "expsign", "expint",
           "scaled", "stop", "none"}

\* in these states the text read so far is a number
Accepting == {"int", "frac", "expint", "scaled", "stop"}

\* the state after character c in state st
Move(st, c) ==
    CASE st = "start" ->
            (CASE c \in Digit -> "int" [] c \in {"+", "-"} -> "sign" [] OTHER -> "none")
      [] st = "sign" ->
            (CASE c \in Digit -> "int" [] c = "." -> "point" [] OTHER -> "none")
      [] st = "point" ->      \* "+." : a number only for lack of a digit before the point
            (CASE c \in Digit -> "frac" [] OTHER -> "none")
      [] st = "int" ->
            (CASE c \in Digit -> "int" [] c = "." -> "frac" [] c = "e" -> "exp"
               [] c \in DOMAIN Scale -> "scaled" [] OTHER -> "stop")
      [] st = "frac" ->
            (CASE c \in Digit -> "frac" [] c = "e" -> "exp"
               [] c \in DOMAIN Scale -> "scaled" [] OTHER -> "stop")
      [] st = "exp" ->
            (CASE c \in Digit -> "expint" [] c \in {"+", "-"} -> "expsign" [] OTHER -> "none")
      [] st = "expsign" ->
            (CASE c \in Digit -> "expint" [] OTHER -> "none")
      [] st = "expint" ->
            (CASE c \in Digit -> "expint" [] OTHER -> "stop")
      [] st \in {"scaled", "stop"} -> "stop"
      [] st = "none" -> "none"

\* automaton configuration: state, end of the decimal text, scale, leading ".": TRUE
Initial == [st |-> "start", end |-> 0, scale |-> "1.0", bare |-> FALSE]
StepOn(a, c, i) ==
    LET n == Move(a.st, c)
    IN [st    |-> n,
        end   |-> IF n \in {"stop", "scaled", "none"} THEN a.end ELSE i,
        scale |-> IF n = "scaled" THEN Scale[c] ELSE a.scale,
        bare  |-> a.bare \/ n = "point"]

RECURSIVE Run(_, _, _)
Run(a, text, i) ==
    IF i > Len(text) \/ a.st \in {"stop", "none"} THEN a
    ELSE Run(StepOn(a, Ch(text, i), i), text, i + 1)

\* ok: the text has a value;  bare: "+.5", which may just as well be refused
ReadValue(text) ==
    LET a == Run(Initial, text, 1)
    IN IF a.st \in Accepting
       THEN [ok |-> TRUE, bare |-> a.bare,
             val |-> NMul(NRead(SubSeq(text, 1, a.end)), a.scale)]
       ELSE [ok |-> FALSE, bare |-> FALSE, val |-> N0]

IsValue(text) == ReadValue(text).ok
ValueOf(text) == ReadValue(text).val
=============================================================================
