-------------------------------- MODULE Deck --------------------------------
(* The deck reader, one line at a time.                                      *)
(*                                                                           *)
(* A reader state rd holds the stack of files being read (the deck, and at   *)
(* most one library below it), the circuits defined so far (ckts[1] is the   *)
(* toplevel, the rest subcircuit definitions) and the analysis settings.     *)
(* status is "reading", then "ok" or "rejected".  loose marks decks whose    *)
(* treatment is left open: they may be rejected, and nothing is said about   *)
(* what they mean if they are not.                                           *)
EXTENDS Value, SequencesExt, TLC

Lit(v) == [k |-> "lit", v |-> v]
Id(n)  == [k |-> "id", v |-> n]

(* What an analysis is run with: what a control block can set, then the      *)
(* limits it has no names for.                                               *)
NoConfig ==
    [kind |-> "none",
     TSTEP |-> "1e-6", TSTOP |-> "1e-3", TSTART |-> "0.0",
     ABSTOL |-> "1e-9", RELTOL |-> "1e-4", RMAX |-> "5.0",
     VNTOL |-> "1e-6", FS |-> "0.25", FT |-> "0.25", RMIN |-> "1e-9",
     GMIN |-> "1e-12", TDEGC |-> "27.0",
     ITL1 |-> 50, ITL3 |-> 6, ITL4 |-> 50]

Circuit(name) == [name |-> name, ports |-> << >>, params |-> << >>, cards |-> << >>]

Frame(file, sec) ==
    [file |-> file, sec |-> sec, ln |-> 2,           \* line 1 is a title
     insec |-> FALSE, secread |-> FALSE, ctl |-> FALSE, sub |-> FALSE]

\* sec of the deck itself; library sections are words, so never this
DeckSec == " "

StartReading(main) ==
    [stack |-> << Frame(main, DeckSec) >>, c |-> 1,
     ckts |-> << Circuit(main) >>, cfg |-> NoConfig,
     status |-> "reading", why |-> "", loose |-> FALSE]

Reject(rd, why) == [rd EXCEPT !.status = "rejected", !.why = why]
Loose(rd) == [rd EXCEPT !.loose = TRUE]

Top(rd) == rd.stack[Len(rd.stack)]
SetTop(rd, f) == [rd EXCEPT !.stack[Len(rd.stack)] = f]

-----------------------------------------------------------------------------
(* Expressions: a number, or one braced name. *)

NoExpr == [k |-> "bad", v |-> ""]
ReadExpr(text) ==
    IF StartsWith(text, "{")
    THEN LET i == FindFrom(text, 2, {"}"})
             n == IF i = 0 THEN "" ELSE SubSeq(text, 2, i - 1)
         IN IF i = 0 \/ ~ AllIn(n, Alnum) THEN NoExpr
            ELSE IF i < Len(text) \/ n = "" THEN [k |-> "loose", v |-> n]
            ELSE Id(n)
    ELSE LET r == ReadValue(text)
         IN IF ~ r.ok THEN NoExpr
            ELSE IF r.bare THEN [k |-> "loose", v |-> ""]
            ELSE Lit(r.val)

\* <name>=<expr>
IsSetting(word) == HasAny(word, {"="})
ReadSetting(word) ==
    LET f == Fields(word, "=")
    IN IF Len(f) # 2 THEN [name |-> "", e |-> NoExpr]
       ELSE [name |-> f[1], e |-> ReadExpr(f[2])]

GoodSetting(n) == n # "" /\ AllIn(n, Alnum \cup {"_"})
GoodNode(w) == AllIn(w, Alnum \cup {"_"})
GroundNames == {"0", "gnd", "GND"}

-----------------------------------------------------------------------------
(* Cards.  Every element card becomes a record                               *)
(*   [kind, name, nodes, e, w, sub, sets]                                    *)
(* e: value expression (R C E G), w: numbers (V I sources), sub and sets:    *)
(* definition and parameter settings (X).                                    *)

Card(kind, name, nodes, e, w) ==
    [kind |-> kind, name |-> name, nodes |-> nodes, e |-> e, w |-> w,
     sub |-> "", sets |-> << >>]

AddCard(rd, card) == [rd EXCEPT !.ckts[rd.c].cards = Append(@, card)]

\* devices with a value expression: R C (2 nodes), E G (4), and D (2, no value)
Device(rd, b, nnodes, nvalues) ==
    IF Len(b) < 1 + nnodes + nvalues THEN Reject(rd, "too few fields")
    ELSE LET nodes == SubSeq(b, 2, 1 + nnodes)
             kind  == Ch(b[1], 1)
             e     == IF nvalues = 0 THEN Lit(N0) ELSE ReadExpr(b[2 + nnodes])
             extra == Len(b) > 1 + nnodes + nvalues
         IN IF \E i \in 1..nnodes : ~ GoodNode(nodes[i]) THEN Reject(rd, "bad node name")
            ELSE IF e.k = "bad" /\ extra THEN Loose(rd)
            ELSE IF e.k = "bad" THEN Reject(rd, "unreadable value")
            ELSE LET r == AddCard(rd, Card(kind, b[1], nodes, e, << >>))
                 IN IF extra \/ e.k = "loose" THEN Loose(r) ELSE r

\* the numbers of SIN( ... )
SinWords(b) ==
    Words(Without(Join(SubSeq(b, 4, Len(b))), {"S", "I", "N", "(", ")"}))

SineCard(rd, b, kind) ==
    LET ws == SinWords(b)
    IN IF Len(ws) # 3 THEN Reject(rd, "SIN takes three numbers")
       ELSE IF \E i \in 1..3 : ~ IsValue(ws[i]) THEN Reject(rd, "unreadable value")
       ELSE LET r == AddCard(rd, Card(kind, b[1], <<b[2], b[3]>>, Lit(N0),
                                      [i \in 1..3 |-> ValueOf(ws[i])]))
            IN IF \E i \in 1..3 : ReadValue(ws[i]).bare THEN Loose(r) ELSE r

\* index of the first of the settings that end a line
RECURSIVE SettingsFrom(_, _)
SettingsFrom(b, i) == IF i > 1 /\ IsSetting(b[i - 1]) THEN SettingsFrom(b, i - 1) ELSE i

\* w = <<delay, repeat, t1, v1, t2, v2, ...>>
PwlCard(rd, b) ==
    LET first == SettingsFrom(b, Len(b) + 1)
        sets  == [i \in 1..(Len(b) - first + 1) |-> ReadSetting(b[first + i - 1])]
        text  == Without(Join(SubSeq(b, 4, first - 1)), {"P", "W", "L", "(", ")"})
        cut   == TLCEval(Fields(text, ","))
        fs    == TLCEval([i \in 1..Len(cut) |-> Words(cut[i])])
        val(name, dflt) ==
            IF \E i \in 1..Len(sets) : sets[i].name = name
            THEN sets[CHOOSE i \in 1..Len(sets) : sets[i].name = name].e.v
            ELSE dflt
    IN IF first < 5 THEN Reject(rd, "no pattern")
       ELSE IF \E i \in 1..Len(sets) : sets[i].e.k = "bad" THEN Reject(rd, "bad setting")
       ELSE IF \E i \in 1..Len(sets) : sets[i].e.k = "id" /\ sets[i].name \in {"r", "td"}
       THEN Reject(rd, "setting without a number")
       ELSE IF \E i \in 1..Len(fs) : Len(fs[i]) # 1 THEN Reject(rd, "PWL takes comma-separated numbers")
       ELSE IF \E i \in 1..Len(fs) : ~ IsValue(fs[i][1]) THEN Reject(rd, "unreadable value")
       ELSE IF Len(fs) % 2 = 1 THEN Reject(rd, "time without a value")
       ELSE IF \/ \E i \in 1..Len(sets) : sets[i].e.k # "lit" \/ sets[i].name \notin {"r", "td"}
               \/ \E i, j \in 1..Len(sets) : i # j /\ sets[i].name = sets[j].name
               \/ \E i \in 1..Len(fs) : ReadValue(fs[i][1]).bare
               \/ NLt(ValueOf(fs[1][1]), N0)                 \* times have to increase
               \/ \E i \in 1..(Len(fs) \div 2 - 1) : NLe(ValueOf(fs[2 * i + 1][1]), ValueOf(fs[2 * i - 1][1]))
            THEN Loose(rd)
       ELSE AddCard(rd, Card("VPWL", b[1], <<b[2], b[3]>>, Lit(N0),
                <<val("td", N0), val("r", "-1.0")>> \o
                [i \in 1..Len(fs) |-> ValueOf(fs[i][1])]))

SourceCard(rd, b) ==
    LET kind == Ch(b[1], 1)
    IN IF Len(b) < 4 THEN Reject(rd, "too few fields")
       ELSE IF ~ (GoodNode(b[2]) /\ GoodNode(b[3])) THEN Reject(rd, "bad node name")
       ELSE IF StartsWith(b[4], "SIN") THEN SineCard(rd, b, IF kind = "V" THEN "VSIN" ELSE "ISIN")
       ELSE IF kind = "V" /\ StartsWith(b[4], "PWL") THEN PwlCard(rd, b)
       ELSE IF Len(b) > 4 THEN Reject(rd, "unsupported source")
       ELSE LET r == ReadValue(b[4])
                added == AddCard(rd, Card(kind, b[1], <<b[2], b[3]>>, Lit(N0), <<r.val>>))
            IN IF ~ r.ok THEN Reject(rd, "unreadable value")
               ELSE IF r.bare THEN Loose(added) ELSE added

\* X<name> <node>* <definition> <setting>*
Instance(rd, b) ==
    LET first == SettingsFrom(b, Len(b) + 1)
        sets  == [i \in 1..(Len(b) - first + 1) |-> ReadSetting(b[first + i - 1])]
        nodes == SubSeq(b, 2, first - 2)
        cards == rd.ckts[rd.c].cards
    IN IF first < 3 THEN Reject(rd, "no definition named")
       ELSE IF \E i \in 1..Len(nodes) : ~ GoodNode(nodes[i]) THEN Reject(rd, "bad node name")
       ELSE IF \E i \in 1..Len(sets) : sets[i].e.k = "bad" THEN Reject(rd, "bad setting")
       ELSE IF \E i \in 1..Len(sets) : HasAny(sets[i].name, {"."}) THEN Reject(rd, "bad parameter name")
       ELSE IF HasAny(b[1], {"."}) THEN Reject(rd, "bad instance name")
       ELSE IF \E i \in 1..Len(cards) : cards[i].name = b[1] THEN Reject(rd, "instance name taken")
       ELSE LET r == AddCard(rd, [Card("X", b[1], nodes, Lit(N0), << >>)
                                     EXCEPT !.sub = b[first - 1], !.sets = sets])
            IN IF \/ \E i \in 1..Len(sets) : sets[i].e.k = "loose"
                  \/ \E i, j \in 1..Len(sets) : i # j /\ sets[i].name = sets[j].name
                  \/ \E i \in 1..Len(sets) : ~ GoodSetting(sets[i].name)
               THEN Loose(r) ELSE r

-----------------------------------------------------------------------------
(* Dot commands *)

\* .subckt <name> (<port> | <param>=<default>)*
Subckt(rd, b) ==
    LET ports == SelectSeq(SubSeq(b, 3, Len(b)), LAMBDA w : ~ IsSetting(w))
        defs  == SelectSeq(SubSeq(b, 3, Len(b)), IsSetting)
        sets  == [i \in 1..Len(defs) |-> ReadSetting(defs[i])]
        ckt   == [Circuit(IF Len(b) > 1 THEN b[2] ELSE "") EXCEPT !.ports = ports, !.params = sets]
        r     == [rd EXCEPT !.ckts = Append(@, ckt), !.c = Len(rd.ckts) + 1,
                            !.stack[Len(rd.stack)].sub = TRUE]
    IN IF rd.c # 1 THEN Reject(rd, "definition inside a definition")
       ELSE IF Len(b) < 2 THEN Reject(rd, "no name")
       ELSE IF \E i \in 1..Len(ports) : ~ GoodNode(ports[i]) THEN Reject(rd, "bad node name")
       ELSE IF \E i \in 1..Len(ports) : ports[i] \in GroundNames THEN Reject(rd, "ground as a port")
       ELSE IF \E i, j \in 1..Len(ports) : i # j /\ ports[i] = ports[j] THEN Reject(rd, "port given twice")
       ELSE IF \E i \in 1..Len(sets) : sets[i].e.k = "bad" THEN Reject(rd, "bad setting")
       ELSE IF \E i \in 1..Len(sets) : HasAny(sets[i].name, {"."}) THEN Reject(rd, "bad parameter name")
       ELSE IF \/ \E i \in 1..Len(sets) : sets[i].e.k = "loose"
               \/ \E i, j \in 1..Len(sets) : i # j /\ sets[i].name = sets[j].name
               \/ \E i \in 1..Len(sets) : ~ GoodSetting(sets[i].name)
               \/ \E i \in 2..Len(rd.ckts) : rd.ckts[i].name = b[2]
            THEN Loose(r) ELSE r

Lib(rd, b, files) ==
    IF Top(rd).sec # DeckSec THEN Reject(rd, "nested .lib")
    ELSE IF Len(b) # 3 THEN Reject(rd, ".lib takes a file and a section")
    ELSE LET path == DirOf(Top(rd).file) \o b[2]
         IN IF path \notin DOMAIN files THEN Reject(rd, "no such file")
            ELSE [rd EXCEPT !.stack = Append(@, Frame(path, b[3]))]

Control(rd, b) ==
    CASE b[1] = "op" -> [rd EXCEPT !.cfg.kind = "op"]
      [] b[1] = "tran" ->
            IF Len(b) < 3 THEN Reject(rd, "tran takes a step and a stop time")
            ELSE LET n == IF Len(b) > 3 THEN 4 ELSE 3
                 IN IF \E i \in 2..n : ~ IsValue(b[i]) THEN Reject(rd, "unreadable value")
                    ELSE LET r == [rd EXCEPT !.cfg.kind = "tran",
                                     !.cfg.TSTEP = ValueOf(b[2]), !.cfg.TSTOP = ValueOf(b[3]),
                                     !.cfg.TSTART = IF n = 4 THEN ValueOf(b[4]) ELSE NoConfig.TSTART]
                         IN IF Len(b) > 4 \/ \E i \in 2..n : ReadValue(b[i]).bare
                            THEN Loose(r) ELSE r
      [] b[1] = "option" ->
            IF Len(b) = 1 THEN rd
            ELSE IF Len(b) < 3 \/ b[3] # "=" THEN Reject(rd, "option takes <name> = <value>")
            ELSE IF b[2] \notin {"ABSTOL", "RELTOL", "RMAX"} THEN rd
            ELSE IF Len(b) < 4 \/ ~ IsValue(b[4]) THEN Reject(rd, "unreadable value")
            ELSE LET r == [rd EXCEPT !.cfg[b[2]] = ValueOf(b[4])]
                 IN IF Len(b) > 4 \/ ReadValue(b[4]).bare THEN Loose(r) ELSE r
      [] b[1] = ".endc" -> [rd EXCEPT !.stack[Len(rd.stack)].ctl = FALSE]
      [] OTHER -> rd

Ends(rd) ==
    IF ~ Top(rd).sub THEN Reject(rd, ".ends without .subckt")
    ELSE [rd EXCEPT !.c = 1, !.stack[Len(rd.stack)].sub = FALSE]

Endl(rd) ==
    IF ~ Top(rd).insec THEN Reject(rd, ".endl without .lib")
    ELSE [rd EXCEPT !.stack[Len(rd.stack)].insec = FALSE, !.stack[Len(rd.stack)].secread = TRUE]

\* a line outside any control block, and inside the section if there is one
Body(rd, b, files) ==
    LET k == Ch(b[1], 1)
    IN CASE b[1] = ".ends"    -> Ends(rd)
         [] b[1] = ".control" -> [rd EXCEPT !.stack[Len(rd.stack)].ctl = TRUE]
         [] b[1] = ".subckt"  -> Subckt(rd, b)
         [] b[1] = ".lib"     -> Lib(rd, b, files)
         [] b[1] = ".endl"    -> Endl(rd)
         [] k \in {"V", "I"}  -> SourceCard(rd, b)
         [] k \in {"R", "C"}  -> Device(rd, b, 2, 1)
         [] k \in {"E", "G"}  -> Device(rd, b, 4, 1)
         [] k = "D"           -> Device(rd, b, 2, 0)
         [] k = "X"           -> Instance(rd, b)
         [] OTHER             -> Reject(rd, "unknown card")

\* what is left of a line: its words before any comment
Code(line) == LET b == Words(Before(line, {";"}))
              IN IF b # << >> /\ StartsWith(b[1], "*") THEN << >> ELSE b

Line(rd, b, files) ==
    IF b = << >> THEN rd
    ELSE IF Top(rd).sec # DeckSec /\ ~ Top(rd).insec
    THEN IF b = <<".lib", Top(rd).sec>>
         THEN LET r == [rd EXCEPT !.stack[Len(rd.stack)].insec = TRUE]
              IN IF Top(rd).secread THEN Loose(r) ELSE r
         ELSE rd
    ELSE IF Top(rd).ctl THEN Control(rd, b)
    ELSE Body(rd, b, files)

\* the end of the file on top of the stack
EndOfFile(rd) ==
    LET f == Top(rd)
    IN IF f.ctl THEN Reject(rd, ".control without .endc")
       ELSE IF f.sub THEN Reject(rd, ".subckt without .ends")
       ELSE IF f.sec # DeckSec /\ f.insec THEN Reject(rd, ".lib without .endl")
       ELSE IF f.sec # DeckSec /\ ~ f.secread THEN Reject(rd, "no such section")
       ELSE IF Len(rd.stack) = 1 THEN [rd EXCEPT !.status = "ok"]
       ELSE [rd EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]

\* one step of the reader: the next line, or the end, of the file on top
Read(rd, files) ==
    LET f == Top(rd)
        lines == files[f.file]
    IN IF f.ln > Len(lines) THEN EndOfFile(rd)
       ELSE LET advanced == [rd EXCEPT !.stack[Len(rd.stack)].ln = f.ln + 1]
            IN Line(advanced, Code(lines[f.ln]), files)

RECURSIVE ReadAll(_, _)
ReadAll(rd, files) == IF rd.status = "reading" THEN ReadAll(Read(rd, files), files) ELSE rd
=============================================================================
