------------------------------ MODULE BuilderGen ------------------------------
(* All short sequences of calls that build a circuit.  Each is printed, to   *)
(* be made on the real thing.                                                *)
EXTENDS Builder, Json
CONSTANTS Names, Kinds, MaxCalls

Names1 == {"a", "b", "gnd", "0", "x.a", "x.gnd"}
Names3 == {"a", "x.a"}
Names2 == {"a", "A", "01", "GND", "Gnd", "a.b"}

VARIABLES b, hist, made      \* made: pairs of names that were made one node
vars == <<b, hist, made>>

C(f, name) == [f |-> f, name |-> name, of |-> "", way |-> "", kind |-> "", n |-> << >>, v |-> << >>]
Refs == {r \in Names : r \in DOMAIN b.refs} \cup {"#0", "#2"}
Val(kind) == CASE kind = "D" -> <<"1e-12", "50">> [] kind = "VSIN" -> <<"0", "1", "2">>
               [] kind = "VPWL" -> <<"0", "-1", "0", "1", "2", "3">> [] OTHER -> <<"2">>
Els == {[C("el", kind \o "1") EXCEPT !.way = way, !.kind = kind, !.n = <<p, q>>, !.v = Val(kind)] :
           way \in {"add", "push"}, kind \in Kinds, p \in Refs, q \in {"#0", "#3"}}
Calls == {C("node", x) : x \in Names} \cup {C("find", x) : x \in Names}
         \cup {[C("alias", x) EXCEPT !.of = r] : x \in Names, r \in Refs}
         \cup Els \cup {C("nodes", ""), C("sources", ""), C("run", "")}

Init == b = Fresh(NoConfig) /\ hist = << >> /\ made = {}
Next == /\ Len(hist) < MaxCalls
        /\ \E c \in Calls :
             LET a == TLCEval(Call(b, c))
             IN /\ b' = a.b
                /\ hist' = Append(hist, c)
                /\ made' = IF c.f = "alias" /\ a.ret = "done"
                           THEN made \cup {<<c.name, x>> : x \in {x \in DOMAIN b.ids : b.ids[x] = NodeOf(b, c.of)}}
                           ELSE made
Spec == Init /\ [][Next]_vars

\* two names are one node only if they were made so, or are ground's
Linked(x, y) == x = y \/ <<x, y>> \in made \/ <<y, x>> \in made
                \/ \E z \in DOMAIN b.ids : (<<x, z>> \in made \/ <<z, x>> \in made) /\ (<<y, z>> \in made \/ <<z, y>> \in made)
\* a name for a number that has not been handed out may be shared later
Foreign == \E k \in 1..Len(hist) : hist[k].f = "alias" /\ hist[k].of = "#2"
Distinct == Foreign \/ \A x, y \in DOMAIN b.ids : b.ids[x] = b.ids[y] => Linked(x, y)
Kept     == \A x \in DOMAIN b.refs : Lookup(b, x) = b.refs[x]
Grounded == \A x \in DOMAIN b.refs : IsGround(x) => b.refs[x] = 0
Dense    == Foreign \/ {b.ids[x] : x \in DOMAIN b.ids} = 0..(b.next - 1)
InRange  == \A k \in 1..Len(b.els) : \A m \in 1..Len(b.els[k].n) : b.els[k].n[m] < CountNodes(b)

Useful == \E k \in 1..Len(hist) : hist[k].f \notin {"nodes", "sources", "run", "find"}
Printed == Len(hist) = MaxCalls /\ Useful => PrintT("CASE " \o ToJson(hist))
================================================================================
