-------------------------------- MODULE Builder --------------------------------
(* Circuits built with the library's calls instead of read from a deck.      *)
(*                                                                           *)
(* A call is [f, name, of, way, kind, n, v] (what doesn't apply is empty):   *)
(*   node name | find name | alias name of | lut                             *)
(*   el: an element, by way of add_...() or of pushing it on the list;       *)
(*       n refers to nodes - a name stands for the number that was returned  *)
(*       for it, "#5" for the number 5 itself                                *)
(*   nodes | sources (counts) | tran v | op | run (an analysis in between)   *)
(* The builder is [ids, refs, next, high, els, lut, cfg]: names and their    *)
(* numbers, numbers returned for names, next number, highest one used,       *)
(* elements with numbers for nodes, whether names are looked up, settings.   *)
EXTENDS Flatten

MostRaw == 60
IsRaw(ref) == Ch(ref, 1) = "#"
Raw(ref) == CHOOSE k \in 0..MostRaw : ref = "#" \o ToString(k)

\* ground under any of its names, in any scope
IsGround(name) == LET f == Fields(name, ".") IN f[Len(f)] \in GroundNames

Fresh(cfg) == [ids |-> (Ground :> 0), refs |-> << >>, next |-> 1, high |-> 0, els |-> << >>, lut |-> FALSE, cfg |-> cfg]

Lookup(b, name) ==     \* -1: no such node
    IF IsGround(name) THEN 0 ELSE IF name \in DOMAIN b.ids THEN b.ids[name] ELSE -1
NodeOf(b, ref) == IF IsRaw(ref) THEN Raw(ref) ELSE b.refs[ref]
Knows(b, ref) == IsRaw(ref) \/ ref \in DOMAIN b.refs

Max2(x, y) == IF x < y THEN y ELSE x
CountNodes(b) == Max2(b.next, b.high + 1)
CountSources(b) == Len(Branches(b.els))

\* what a call returns, and what it leaves
Answer(b, ret) == [b |-> b, ret |-> ret]
Call(b, c) ==
    CASE c.f = "node" ->
            LET old == Lookup(b, c.name)
            IN IF old >= 0 THEN Answer([b EXCEPT !.refs = (c.name :> old) @@ @], ToString(old))
               ELSE Answer([b EXCEPT !.ids = (c.name :> b.next) @@ @, !.refs = (c.name :> b.next) @@ @, !.next = @ + 1],
                           ToString(b.next))
      [] c.f = "find" ->
            LET old == Lookup(b, c.name)
            IN IF old < 0 THEN Answer(b, "none")
               ELSE Answer([b EXCEPT !.refs = (c.name :> old) @@ @], ToString(old))
      [] c.f = "alias" ->
            LET old == Lookup(b, c.name)
                id == NodeOf(b, c.of)
            IN IF old >= 0 /\ old # id THEN Answer(b, "stopped")
               ELSE Answer([b EXCEPT !.ids = (c.name :> id) @@ @, !.refs = (c.name :> id) @@ @], "done")
      [] c.f = "el" ->
            LET n == [k \in 1..Len(c.n) |-> NodeOf(b, c.n[k])]
            IN Answer([b EXCEPT !.els = Append(@, [kind |-> c.kind, name |-> c.name, n |-> n, v |-> c.v]),
                                !.high = FoldLeft(Max2, @, n)], "done")
      [] c.f = "nodes" -> Answer(b, ToString(CountNodes(b)))
      [] c.f = "sources" -> Answer(b, ToString(CountSources(b)))
      [] c.f = "lut" -> Answer([b EXCEPT !.lut = TRUE], "done")
      [] c.f = "op" -> Answer([b EXCEPT !.cfg.kind = "op"], "done")
      [] c.f = "tran" -> Answer([b EXCEPT !.cfg.kind = "tran", !.cfg.TSTOP = c.v[1], !.cfg.TSTEP = c.v[2], !.cfg.TSTART = c.v[3]],
                                "done")
      [] c.f = "run" -> Answer(b, IF b.cfg.kind = "none" THEN "none" ELSE "ran")

-----------------------------------------------------------------------------
(* The circuit that has been built, for the laws: each number is a node,     *)
(* labelled with the name it is shown under (shown: <<number, name>>).       *)

Dots(name) == Count(name, ".")
Label(b, shown, id) ==
    IF id = 0 THEN Ground
    ELSE LET k == SelectInSeq(shown, LAMBDA s : s[1] = id)
         IN IF k = 0 THEN "#" \o ToString(id) ELSE shown[k][2]

\* numbers are shown under one of their outermost names
WrongShown(b, shown) ==
    LET named == {b.ids[n] : n \in DOMAIN b.ids}
    IN IF {shown[k][1] : k \in 1..Len(shown)} # named \/ Len(shown) # Cardinality(named) THEN "nodes that have a name"
       ELSE IF \E k \in 1..Len(shown) :
                 \/ shown[k][2] \notin DOMAIN b.ids
                 \/ b.ids[shown[k][2]] # shown[k][1]
                 \/ \E n \in DOMAIN b.ids : b.ids[n] = shown[k][1] /\ Dots(n) < Dots(shown[k][2])
            THEN "name of a node" ELSE ""

FlatBuilt(b, shown) ==
    LET ids == 0..(CountNodes(b) - 1)
        label == TLCEval([k \in ids |-> Label(b, shown, k)])
    IN [ok |-> TRUE, why |-> "", loose |-> FALSE,
        els |-> [k \in 1..Len(b.els) |-> [b.els[k] EXCEPT !.n = [m \in 1..Len(@) |-> label[@[m]]]]],
        nodes |-> {label[k] : k \in ids},
        ids |-> [x \in {label[k] : k \in ids} |-> CHOOSE k \in ids : label[k] = x] @@ b.ids]
=============================================================================
