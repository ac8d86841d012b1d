-------------------------------- MODULE HierGen --------------------------------
(* Small hierarchies: a toplevel, a definition s in it, t in s (and v in t), *)
(* with every way to hand parameters down (Part "params") or nodes (Part  *)
(* "nodes").  Each is printed as a deck.                                     *)
(*                                                                           *)
(* Along the way, the meaning of a hierarchy is compared with that of the    *)
(* deck it abbreviates: with s written out at the toplevel by hand (C09),    *)
(* and with names inside definitions changed (C11); parameters that nobody   *)
(* is given can't come from anywhere else (C10).                             *)
EXTENDS Flatten, Json
CONSTANTS What, Names, Pick, Seed

Names1 == <<"1", "01", "0">>
Names2 == <<"a", "A", "gnd">>
Names3 == <<"Gnd", "GND", "gnd">>
Names4 == <<"x", "x_1", "X1">>
Names5 == <<"1", "10", "0">>
Names6 == <<"p", "q", "_p">>

\* how a parameter may be set: not at all, by a number, by a name
Given == <<"", "number", "{r}", "{u}", "{z}">>
Put(n, w, number) == IF w = "" THEN << >> ELSE <<n \o "=" \o (IF w = "number" THEN number ELSE w)>>
Two(a, b, swap) == IF swap THEN b \o a ELSE a \o b

\* one of Pick of all there are
VARIABLES x, rd
ParamChoices == [top : [1..2 -> {1, 2, 3}], sdef : [1..2 -> {1, 2}], inner : [1..2 -> {1, 2, 3, 4}],
                 tdef : [1..2 -> 1..5], use : {"r", "u"}, vset : {1, 2, 3, 4}, vdef : {2, 3, 4}, swap : BOOLEAN]
ParamKey(c) == 1009 * c.top[1] + 307 * c.top[2] + 53 * c.sdef[1] + 31 * c.sdef[2] + 401 * c.inner[1] + 17 * c.inner[2]
               + 211 * c.tdef[1] + 7 * c.tdef[2] + (IF c.use = "r" THEN 13 ELSE 0) + 47 * c.vset + 91 * c.vdef + (IF c.swap THEN 101 ELSE 0)
NodeChoices == [1..10 -> 1..3]
GroundPort(c) == Names[c[5]] \in GroundNames \/ Names[c[6]] \in GroundNames
NodeKey(c) == c[1] + 3 * c[2] + 11 * c[3] + 29 * c[4] + 83 * c[5] + 241 * c[6] + 733 * c[7] + 2203 * c[8] + 6607 * c[9] + 101 * c[10]

\* zero and negative numbers among those set, or among the defaults
Number(c, text, default) ==
    LET way == (c.top[1] + c.sdef[2] + c.inner[1] + c.tdef[1] + c.vset + c.vdef) % 5
    IN CASE way = 0 -> IF default THEN text ELSE "0"
         [] way = 1 -> IF default THEN "0" ELSE text
         [] way = 2 -> "-" \o text
         [] OTHER -> text
ParamLines(c) ==
    LET settings(g, swap, a, b, default) ==
            Two(Put("r", Given[g[1]], Number(c, a, default)), Put("u", Given[g[2]], Number(c, b, default)), swap)
        \* another one of the same, that sets what there is to be set
        other(g) == [n \in 1..2 |-> IF g[n] = 1 THEN 1 ELSE 2]
    IN << Join(<<"X1", "a", "0", "s">> \o settings(c.top, c.swap, "2", "3", FALSE)),
          Join(<<"X2", "b", "a", "s">> \o settings(other(c.sdef), c.swap, "31", "37", FALSE)),
          Join(<<".subckt", "s", "p", "q">> \o settings(c.sdef, c.swap, "5", "7", TRUE)),
          Join(<<"X1", "p", "q", "t">> \o settings(c.inner, ~ c.swap, "11", "13", FALSE)),
          ".ends",
          Join(<<".subckt", "t", "p", "q">> \o settings(c.tdef, c.swap, "17", "19", TRUE)),
          "R1 p q {" \o c.use \o "}",
          Join(<<"X1", "p", "q", "v">> \o Put("r", Given[c.vset], Number(c, "23", FALSE))),
          ".ends",
          Join(<<".subckt", "v", "p", "q">> \o Put("r", Given[c.vdef], Number(c, "29", TRUE))),
          "R1 p q {r}",
          ".ends" >>
NodeLines(c) ==
    LET n(k) == Names[c[k]]
    IN << "X1 " \o n(1) \o " " \o n(2) \o " s",
          "R1 " \o n(3) \o " " \o n(4) \o " 1",
          ".subckt s " \o n(5) \o " " \o n(6),
          "R1 " \o n(7) \o " " \o n(8) \o " 2",
          "X1 " \o n(9) \o " " \o n(10) \o " t",
          ".ends",
          ".subckt t p q",
          "R1 p " \o n(7) \o " 3",
          "R2 q " \o n(2) \o " 4",
          ".ends" >>

\* a value comes down the chain of names, or there is none
Way(w) == IF w = "" THEN "" ELSE IF w = "number" THEN w ELSE IF w = "{r}" THEN "r" ELSE IF w = "{u}" THEN "u" ELSE "z"
At(g, n) == Way(Given[g[IF n = "r" THEN 1 ELSE 2]])
InS(c, n) == n = "number" \/ (n \in {"r", "u"} /\ At(c.sdef, n) # "" /\ At(c.top, n) \in {"", "number"})
SetInT(c, n) == IF At(c.inner, n) # "" THEN At(c.inner, n) ELSE At(c.tdef, n)
InT(c, n) == n = "number" \/ (n \in {"r", "u"} /\ At(c.tdef, n) # "" /\ InS(c, SetInT(c, n)))
ByHand(c) ==
    /\ \A n \in {"r", "u"} : /\ At(c.top, n) \in {"", "number"}
                             /\ At(c.inner, n) # "" => InS(c, At(c.inner, n))
                             /\ At(c.tdef, n) # "" => InS(c, SetInT(c, n))
    /\ InT(c, c.use)
    /\ InT(c, IF c.vset # 1 THEN Way(Given[c.vset]) ELSE Way(Given[c.vdef]))
\* nothing is set that isn't there to be set
Tidy(c) == \A n \in {"r", "u"} : /\ At(c.top, n) # "" => At(c.sdef, n) # ""
                                /\ At(c.inner, n) # "" => At(c.tdef, n) # ""

LinesOf(c) == IF What = "params" THEN ParamLines(c) ELSE NodeLines(c)
Read1(lines) == ReadAll(StartReading("d"), [f \in {"d"} |-> <<"title">> \o lines])
Init == /\ IF What = "params"
           THEN x \in {c \in ParamChoices : (ParamKey(c) + Seed) % (IF ByHand(c) /\ Tidy(c) THEN Pick ELSE 40 * Pick) = 0}
           ELSE x \in {c \in NodeChoices : /\ (c[5] # c[6] \/ c[3] = 1)
                                         /\ (NodeKey(c) + Seed) % (IF GroundPort(c) THEN 20 * Pick ELSE Pick) = 0}
        /\ rd = Read1(LinesOf(x))
Next == FALSE /\ UNCHANGED <<x, rd>>
Spec == Init /\ [][Next]_<<x, rd>>

-----------------------------------------------------------------------------
(* The toplevel with its instances of definition d written out: their cards  *)
(* under their outermost names, ports and parameters replaced.               *)

Outer(prefix, def, call, n) ==
    IF n \in GroundNames THEN n
    ELSE IF \E i \in 1..Len(def.ports) : def.ports[i] = n
    THEN call.nodes[CHOOSE i \in 1..Len(def.ports) : def.ports[i] = n]
    ELSE prefix \o n
\* what parameter n of the call comes to; a name nobody has if it is none
Setting(sets, n) == LET is == {i \in 1..Len(sets) : sets[i].name = n}
                    IN IF is = {} THEN Id("?") ELSE sets[CHOOSE i \in is : TRUE].e
Meant(def, call, e) ==
    IF e.k # "id" THEN e
    ELSE IF Setting(def.params, e.v) = Id("?") THEN Id("?")      \* not one of its parameters
    ELSE IF Setting(call.sets, e.v) # Id("?") THEN Setting(call.sets, e.v)
    ELSE Setting(def.params, e.v)
\* an instance's settings, its definition's defaults among them
All(ckts, c) ==
    IF c.kind # "X" \/ DefIndex(ckts, c.sub) = 0 THEN c.sets
    ELSE c.sets \o SelectSeq(ckts[DefIndex(ckts, c.sub)].params, LAMBDA q : Setting(c.sets, q.name) = Id("?"))
Copied(ckts, def, call) ==
    LET prefix == call.name \o "."
    IN [i \in 1..Len(def.cards) |->
          LET c == def.cards[i]
          IN [c EXCEPT !.name = prefix \o c.name,
                       !.nodes = [j \in 1..Len(c.nodes) |-> Outer(prefix, def, call, c.nodes[j])],
                       !.e = Meant(def, call, @),
                       !.sets = [j \in 1..Len(All(ckts, c)) |->
                                    [All(ckts, c)[j] EXCEPT !.e = Meant(def, call, @)]]]]
WrittenOut(r) ==
    LET top == r.ckts[1].cards
        out == FoldLeft(LAMBDA acc, c : acc \o
                   (IF c.kind = "X" /\ DefIndex(r.ckts, c.sub) # 0 THEN Copied(r.ckts, r.ckts[DefIndex(r.ckts, c.sub)], c) ELSE <<c>>),
                   << >>, top)
    IN [r EXCEPT !.ckts[1].cards = out]

SameMeaning == rd.status = "ok" =>
    \E A \in {Flat(rd)} : A.ok =>
        \E B \in {Flat(WrittenOut(rd))} :
            /\ B.ok /\ A.els = B.els /\ B.nodes \subseteq A.nodes
            /\ \E C \in {Flat(WrittenOut(WrittenOut(rd)))} : C.ok /\ C.els = A.els

Handed == What = "params" /\ rd.status = "ok" => \E A \in {Flat(rd)} : A.ok = ByHand(x)

\* names inside s are its own: ports and private nodes may go by others
Renamed(r) ==
    LET d == 2
        other(n) == IF n \in GroundNames THEN n ELSE n \o "z"
    IN [r EXCEPT !.ckts[d].ports = [i \in 1..Len(@) |-> other(@[i])],
                  !.ckts[d].cards = [i \in 1..Len(@) |-> [@[i] EXCEPT !.nodes = [j \in 1..Len(@) |-> other(@[j])]]]]
OwnNames == What = "nodes" /\ rd.status = "ok" =>
    \E A \in {Flat(rd)}, B \in {Flat(Renamed(rd))} : A.ok =>
        /\ B.ok
        /\ Cardinality(A.nodes) = Cardinality(B.nodes)
        /\ \A i, j \in 1..Len(A.els) : \A k, l \in 1..2 :
              (A.els[i].n[k] = A.els[j].n[l]) = (B.els[i].n[k] = B.els[j].n[l])

Printed == PrintT("CASE " \o ToJson([lines |-> LinesOf(x)]))
================================================================================
