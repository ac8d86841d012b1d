------------------------------- MODULE Flatten -------------------------------
(* The meaning of a hierarchy of subcircuits: one flat list of elements.     *)
(*                                                                           *)
(* A flat element is [kind, name, n, v]: its terminals' nodes n, under their *)
(* outermost names, and its numbers v                                        *)
(*   R <<ohms>>   C <<farads>>   I, V <<value>>   E, G <<gain>>              *)
(*   ISIN, VSIN <<offset, amplitude, frequency>>   D <<isat, celsius>>       *)
(*   VPWL <<delay, repeat, t1, v1, t2, v2, ...>>                             *)
(* Sources of a circuit come before its devices and instances, which come in *)
(* the order of their cards, instances with all that is in them.             *)
EXTENDS Deck

Ground == "gnd"
DiodeNumbers == <<"1e-9", "27.0">>

Failed(why) == [ok |-> FALSE, why |-> why, loose |-> FALSE, els |-> << >>, nodes |-> {}]
Nothing == [ok |-> TRUE, why |-> "", loose |-> FALSE, els |-> << >>, nodes |-> {}]
Both(a, b) ==
    IF ~ a.ok THEN a ELSE IF ~ b.ok THEN [b EXCEPT !.loose = @ \/ a.loose]
    ELSE [ok |-> TRUE, why |-> "", loose |-> a.loose \/ b.loose,
          els |-> a.els \o b.els, nodes |-> a.nodes \cup b.nodes]

(* A scope: path is the prefix of its private names, bind maps its ports to  *)
(* nodes outside, params its parameter names to numbers.                     *)
Toplevel == [path |-> "", bind |-> << >>, params |-> << >>, above |-> {}]

Node(scope, name) ==
    IF name \in GroundNames THEN Ground
    ELSE IF name \in DOMAIN scope.bind THEN scope.bind[name]
    ELSE scope.path \o name

Resolves(scope, e) == e.k = "lit" \/ e.v \in DOMAIN scope.params
Resolve(scope, e) == IF e.k = "lit" THEN e.v ELSE scope.params[e.v]

IsSource(card) == card.kind \in {"V", "I", "VSIN", "ISIN", "VPWL"}
HasBranch(kind) == kind \in {"V", "VSIN", "VPWL", "E"}

Element(scope, card) ==
    LET nodes == [i \in 1..Len(card.nodes) |-> Node(scope, card.nodes[i])]
        el(v) == [ok |-> TRUE, why |-> "", loose |-> FALSE,
                  els |-> <<[kind |-> card.kind, name |-> scope.path \o card.name, n |-> nodes, v |-> v]>>,
                  nodes |-> {nodes[i] : i \in 1..Len(nodes)}]
    IN IF IsSource(card) THEN el(card.w)
       ELSE IF card.kind = "D" THEN el(DiodeNumbers)
       ELSE IF Resolves(scope, card.e) THEN el(<<Resolve(scope, card.e)>>)
       ELSE Failed("unresolved parameter")

DefIndex(ckts, name) ==
    IF \E i \in 2..Len(ckts) : ckts[i].name = name
    THEN CHOOSE i \in 2..Len(ckts) :
            ckts[i].name = name /\ \A j \in 2..(i - 1) : ckts[j].name # name
    ELSE 0

\* the scope inside an instance of definition def
Inside(scope, card, def) ==
    LET over(p)  == \E i \in 1..Len(card.sets) : card.sets[i].name = p
        set(p)   == card.sets[CHOOSE i \in 1..Len(card.sets) : card.sets[i].name = p]
        dflt(p)  == def.params[CHOOSE i \in 1..Len(def.params) : def.params[i].name = p]
        expr(p)  == IF over(p) THEN set(p).e ELSE dflt(p).e
        names    == {def.params[i].name : i \in 1..Len(def.params)}
    IN [path   |-> scope.path \o card.name \o ".",
        bind   |-> [p \in {def.ports[i] : i \in 1..Len(def.ports)} |->
                      Node(scope, card.nodes[CHOOSE i \in 1..Len(def.ports) : def.ports[i] = p])],
        params |-> [p \in names |-> Resolve(scope, expr(p))],
        above  |-> scope.above \cup {def.name}]

RECURSIVE FlatCards(_, _, _, _)
FlatInstance(ckts, scope, card) ==
    LET d == DefIndex(ckts, card.sub)
        def == ckts[d]
        named == {def.params[i].name : i \in 1..Len(def.params)}
        given == {card.sets[i].name : i \in 1..Len(card.sets)}
    IN IF d = 0 THEN Failed("undefined subcircuit")
       ELSE IF def.name \in scope.above THEN Failed("recursive subcircuit")
       ELSE IF Len(def.ports) # Len(card.nodes) THEN Failed("wrong number of connections")
       ELSE IF \E i \in 1..Len(card.sets) : ~ Resolves(scope, card.sets[i].e) THEN Failed("unresolved parameter")
       ELSE IF \E i \in 1..Len(def.params) :
                   def.params[i].name \notin given /\ ~ Resolves(scope, def.params[i].e)
            THEN Failed("unresolved default")
       ELSE LET in == FlatCards(ckts, Inside(scope, card, def), d, TRUE)
                here == {Node(scope, card.nodes[i]) : i \in 1..Len(card.nodes)}
            IN [in EXCEPT !.loose = @ \/ (given \subseteq named) = FALSE,
                          !.nodes = @ \cup here]

FlatCards(ckts, scope, c, sourcesFirst) ==
    LET cards == ckts[c].cards
        flat(card) == IF card.kind = "X" THEN FlatInstance(ckts, scope, card)
                      ELSE Element(scope, card)
        ordered == SelectSeq(cards, IsSource) \o SelectSeq(cards, LAMBDA x : ~ IsSource(x))
    IN FoldLeft(LAMBDA acc, card : IF acc.ok THEN Both(acc, flat(card)) ELSE acc, Nothing, ordered)

\* the flat circuit of a deck that has been read
Flat(rd) == LET f == FlatCards(rd.ckts, Toplevel, 1, TRUE)
            IN [f EXCEPT !.nodes = @ \cup {Ground}, !.loose = @ \/ rd.loose]

\* the elements with a branch current, in the order of their currents
Branches(els) == SelectSeq(els, LAMBDA e : HasBranch(e.kind))
=============================================================================
