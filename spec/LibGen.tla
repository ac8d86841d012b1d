-------------------------------- MODULE LibGen --------------------------------
(* All short library files, imported from the middle of a deck.  Where the   *)
(* import is accepted it does the same as the section's lines would do in    *)
(* the deck itself, whatever stands around the section (C14).                *)
EXTENDS Deck, Json
CONSTANTS Alphabet, MaxLines, Ahead, Behind

Mixed == << ".lib s1", ".lib s2", ".endl", "R1 a 0 1", "R2 b a 2", "bad line", "* .endl" >>
Blocks == << ".lib s1", ".endl", ".subckt s p q", ".ends", "R1 p 0 1", "X1 a b s", ".control", ".endc", "op" >>
Odd == << ".lib s1", ".LIB s1", ".lib s1 x", ".lib  s1 ; x", ".lib", ".lib S1", ".lib s1x", ".endl s1", ".endl", ".ENDL", "R1 a 0 1" >>
Nested == << ".lib s1", ".endl", ".lib other.inc s1", "R1 a 0 1", ".subckt s p", ".ends" >>

\* the import stands in the toplevel circuit, or in a definition
Ahead1 == << "title", "V1 a 0 1" >>
Behind1 == << "R9 a 0 9" >>
Ahead2 == << "title", "V1 a 0 1", "X9 a 0 t", ".subckt t p q" >>
Behind2 == << "R9 p 0 9", ".ends", "R9 a 0 9" >>
Deck1 == Ahead \o << ".lib l.inc s1" >> \o Behind
Files(lib) == [f \in {"deck.cir", "l.inc", "other.inc"} |->
    CASE f = "deck.cir" -> Deck1
      [] f = "l.inc" -> << "* library" >> \o lib
      [] OTHER -> << "* other", ".lib s1", "R5 a 0 5", ".endl" >>]

VARIABLE lib
Init == lib = << >>
Next == Len(lib) < MaxLines /\ \E l \in 1..Len(Alphabet) : lib' = Append(lib, Alphabet[l])
Spec == Init /\ [][Next]_lib

\* the lines of the section
Opens(n) == Code(lib[n]) = <<".lib", "s1">>
Closes(n) == Code(lib[n]) # << >> /\ Code(lib[n])[1] = ".endl"
Section == LET s == CHOOSE n \in 1..Len(lib) : Opens(n) /\ \A m \in 1..(n - 1) : ~ Opens(m)
               e == CHOOSE n \in (s + 1)..Len(lib) : Closes(n) /\ \A m \in (s + 1)..(n - 1) : ~ Closes(m)
           IN SubSeq(lib, s + 1, e - 1)
Spliced == Ahead \o Section \o Behind
Content(rd) == [status |-> rd.status, ckts |-> rd.ckts, cfg |-> rd.cfg]
SameAsSpliced ==
    \E W \in {ReadAll(StartReading("deck.cir"), Files(lib))} :
        (W.status = "ok" /\ ~ W.loose) =>
            Content(W) = Content(ReadAll(StartReading("deck.cir"), [f \in {"deck.cir"} |-> Spliced]))
Printed == PrintT("CASE " \o ToJson([lib |-> lib]))
=============================================================================
