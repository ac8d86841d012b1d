-------------------------------- MODULE Text --------------------------------
(* Characters, words and fields of the lines of a deck. *)
EXTENDS Integers, Sequences, TLC

Ch(s, i) == SubSeq(s, i, i)

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m",
          "n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M",
          "N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Alnum == Digit \cup Lower \cup Upper
Blank == {" ", "\t", "\r", "\f"}

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

\* position of the first character of s, from i on, that is in set; 0 if none
RECURSIVE FindFrom(_, _, _)
FindFrom(s, i, set) ==
    IF i > Len(s) THEN 0
    ELSE IF Ch(s, i) \in set THEN i
    ELSE FindFrom(s, i + 1, set)

HasAny(s, set) == \E i \in 1..Len(s) : Ch(s, i) \in set
Count(s, c) == Len(SelectSeq([i \in 1..Len(s) |-> Ch(s, i)], LAMBDA x : x = c))

\* the part of s before the first character in set
Before(s, set) == LET i == FindFrom(s, 1, set)
                  IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)

\* the pieces of s from starts[k] to ends[k]
Pieces(s, starts, ends) == TLCEval([k \in 1..Len(starts) |-> SubSeq(s, starts[k], ends[k])])

\* the words of s: maximal runs of non-blank characters
Words(s) ==
    LET blank == TLCEval([i \in 1..Len(s) |-> Ch(s, i) \in Blank])
        at    == TLCEval([i \in 1..Len(s) |-> i])
    IN Pieces(s, SelectSeq(at, LAMBDA i : ~ blank[i] /\ (i = 1 \/ blank[i - 1])),
                 SelectSeq(at, LAMBDA i : ~ blank[i] /\ (i = Len(s) \/ blank[i + 1])))

\* the fields of s between separators c (always at least one)
Fields(s, c) ==
    LET cuts == SelectSeq(TLCEval([i \in 1..Len(s) |-> i]), LAMBDA i : Ch(s, i) = c)
        n    == Len(cuts)
    IN Pieces(s, [k \in 1..(n + 1) |-> IF k = 1 THEN 1 ELSE cuts[k - 1] + 1],
                 [k \in 1..(n + 1) |-> IF k = n + 1 THEN Len(s) ELSE cuts[k] - 1])

\* s without the characters in set
RECURSIVE Without(_, _)
Without(s, set) ==
    LET i == FindFrom(s, 1, set)
    IN IF i = 0 THEN s
       ELSE SubSeq(s, 1, i - 1) \o Without(SubSeq(s, i + 1, Len(s)), set)

\* words joined with single spaces
RECURSIVE Join(_)
Join(ws) == IF ws = << >> THEN ""
            ELSE IF Len(ws) = 1 THEN ws[1]
            ELSE ws[1] \o " " \o Join(Tail(ws))

\* directory part of a path, with its slash
RECURSIVE LastSlash(_, _)
LastSlash(s, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = "/" THEN i ELSE LastSlash(s, i - 1)
DirOf(path) == SubSeq(path, 1, LastSlash(path, Len(path)))

AllIn(s, set) == \A i \in 1..Len(s) : Ch(s, i) \in set
=============================================================================
