------------------------------- MODULE ReaderGen -------------------------------
(* The deck reader, given every line of an alphabet in every kind of state it *)
(* can be in: a deck for each of these.  Decks are told apart by what a line  *)
(* can depend on: open blocks, definitions, names of instances, the kinds of  *)
(* cards there are, the analysis asked for.                                   *)
(*                                                                            *)
(* Along the way: lines without meaning change nothing, whatever the state    *)
(* (C13), and the reader's blocks stay in order.                              *)
EXTENDS Deck, Json
CONSTANTS Alphabet, MaxLines, Kinds

Good == <<
    "R1 a b 1k", "C1 a 0 1n", "V1 a 0 5", "I1 0 b 1m", "D1 a b", "E1 c 0 b 0 2", "G1 a 0 b 0 2m",
    "V2 d 0 SIN(0 1 1k)", "I2 a 0 SIN(0 1 1k)", "V3 e 0 PWL(0,0, 1,1) r=0", "X1 a b s", "X2 b 0 t r=2",
    ".control", ".endc", "op", "tran 1 2", "tran 1 2 0.5", "option RELTOL = 0.1", "option", "plot v(a)",
    ".subckt s p q", ".subckt t p q r=1", ".ends", ".lib l.inc s1", ".lib sub/l.inc s2", "R7 p q {r}" >>
Bad == <<
    "R1 a b", "R1 a", "R1", "R1 a b x", "R1 a-b c 1", "R1 aé c 1", "C1 a ß 1", "D1 ² a", "V1 ٣ 0 1", "X1 aΩ b s", ".subckt u pé q", "R1 a b {r}", "R1 a b {r", "R1 a b {}", "C1 a 0", "C1 a 0 -", "C1 a c.d 1n",
    "V1 a 0", "V1 a", "V1 a 0 x", "V1 a 0 5 6", "V1 a 0 DC 5", "V1 a! 0 5", "V1 a 0 SIN(0 1)", "V1 a 0 SIN(0 1 1 1)", "V1 a 0 SIN(0 x 1)", "V1 a 0 SIN",
    "V1 a 0 PWL(0,1,2)", "V1 a 0 PWL(0 1, 2 3)", "V1 a 0 PWL(", "V1 a 0 PWL(0,x)", "V1 a 0 PWL(0,1) r=x", "V1 a 0 PWL(0,1) td={r}", "V1 a 0 PWL(0,1) r={z} td=1", "V1 a 0 PULSE(0 1)",
    "I1 a 0", "I1 a 0 PWL(0,0)", "I1 a 0 5 6", "I1 a 0 {r}", "I1 a 0 SIN(0 1)", "D1 a", "D1 a b+", "E1 a b c 1", "E1 a 0 b 0", "G1 a 0 b 0", "G1 a 0 b 0 m",
    "X1", "X1 s", "X1 a s", "X1 a b c s", "X1 a b none", "X1 a b t r=", "X1 a b t r=1=2", "X1 a b t r=x", "X1 a b t r={z}", "X1 r=1", "X1 a b t x=1", "X1 a% b s", "X1.X2 a b s", "X1 a b t X2.r=1",
    "M1 a b c nmos", "L1 a 0 1m", "a", "1", "r1 a b 1k", "+ 5", ".foo", ".include x", ".model d d", ".tran 1 2", ".end", ".op",
    ".subckt", ".subckt s 0", ".subckt s p p", ".subckt u p- q", ".subckt u p r=", ".subckt u p r={r}", ".subckt u p X2.r=5", ".lib", ".lib l.inc", ".lib none.inc s1", ".lib l.inc none",
    ".lib l.inc s1 x", ".endl", ".ends x", "tran 1", "tran", "tran x 1", "tran 1 x", "tran 1 2 x", "option RELTOL", "option RELTOL = x", "option RELTOL 0.1",
    "option RELTOL =", "option RELTOL =0.1 2", "option RELTOL == 2", "option ABSTOL = 1e-3", "option RMAX = 2", "option VNTOL = 1" >>
AllLines == Good \o Bad
GoodLines == Good

Libraries == [f \in {"l.inc", "sub/l.inc"} |->
    IF f = "l.inc" THEN << "R8 x 0 1", "R9 x 0 1", ".lib s1", "RL a lb 2k", "* .endl", ".endl", "junk" >>
    ELSE << "* title", ".lib s1", "bad card", ".endl", ".lib s2", ".subckt s p q", "RS p q 3", ".ends", ".endl" >>]
Files(lines) == [f \in {"deck.cir"} \cup DOMAIN Libraries |->
                    IF f = "deck.cir" THEN <<"title">> \o lines ELSE Libraries[f]]

Noise == << "", "   ", "* R9 a 0 1", "  *", "; .ends", "*", ";", "\t; op" >>

VARIABLES hist, rd
vars == <<hist, rd>>

\* the reader after these lines, before the end of the file
RECURSIVE Upto(_, _)
Upto(r, files) == IF r.status # "reading" \/ (Len(r.stack) = 1 /\ Top(r).ln > Len(files[Top(r).file])) THEN r
                  ELSE Upto(Read(r, files), files)
After(lines) == Upto(StartReading("deck.cir"), Files(lines))

CaseOf(lines) == PrintT("CASE " \o ToJson([lines |-> lines]))
Closed(r) == (IF Top(r).ctl THEN <<".endc">> ELSE << >>) \o (IF Top(r).sub THEN <<".ends">> ELSE << >>)

Init == hist = << >> /\ rd = After(<< >>)
Next == /\ rd.status = "reading" /\ Len(hist) < MaxLines
        /\ \E l \in 1..Len(Alphabet) :
              /\ hist' = Append(hist, Alphabet[l])
              /\ rd' = TLCEval(After(hist'))
              /\ CaseOf(hist')
              /\ IF rd'.status # "reading" \/ Closed(rd') = << >> THEN TRUE
                 ELSE CaseOf(hist' \o Closed(rd'))
Spec == Init /\ [][Next]_vars

Few(n, most) == IF n > most THEN most ELSE n
View == << rd.status, rd.loose, rd.c = 1, rd.cfg.kind,
           IF rd.status = "reading" THEN <<Top(rd).ctl, Top(rd).sub>> ELSE << >>,
           {rd.ckts[n].name : n \in 2..Len(rd.ckts)}, Few(Len(rd.ckts), 3),
           {k \in Kinds : \E n \in 1..Len(rd.ckts[rd.c].cards) : rd.ckts[rd.c].cards[n].kind = k},
           {n \in {"X1", "X2"} : \E m \in 1..Len(rd.ckts[rd.c].cards) : rd.ckts[rd.c].cards[m].name = n} >>

\* C13: lines without meaning change nothing
NoiseIsNothing == rd.status = "reading" =>
    \A n \in 1..Len(Noise) : Line(rd, Code(Noise[n]), Files(hist)) = rd
\* remarks and white space around a line change nothing
LayoutIsNothing == hist = << >> \/
    LET l == hist[Len(hist)]
        before == After(SubSeq(hist, 1, Len(hist) - 1))
    IN before.status = "reading" =>
         \A v \in {"  " \o l, l \o "  ", "\t" \o l \o " ; R1 a b 1", l \o ";", l \o "\r"} : Code(v) = Code(l)

\* cards go into the definition that is open, and the toplevel is the first circuit
BlocksInOrder == rd.status = "reading" =>
    /\ Len(rd.stack) = 1
    /\ (rd.c = 1) = ~ Top(rd).sub
    /\ rd.c \in {1, Len(rd.ckts)}
=============================================================================
