------------------------------- MODULE CircuitGen -------------------------------
(* Every small resistive circuit over ground and two nodes, worked out in     *)
(* whole numbers: has it one solution, many, or none?                          *)
(*                                                                             *)
(* An element is [k, n, v]: kind, nodes (0 is ground), value.  Both ends may   *)
(* be at one node, sources may be in parallel, E and G may have themselves to  *)
(* control them.  Checked on the way: the laws hold for the solution element   *)
(* by element, whatever the order of the elements and the numbers of nodes.    *)
(*                                                                             *)
(* The real solver is given each circuit: one solution has to be found; none   *)
(* must not be made up.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Most,       \* elements
          Part,       \* one of so many circuits of Most elements is looked at
          Seed

Pairs   == <<<<0, 1>>, <<0, 2>>, <<1, 2>>, <<1, 1>>>>
Control == <<<<0, 1>>, <<1, 0>>, <<2, 0>>, <<1, 2>>, <<2, 1>>, <<2, 2>>>>

Some(k, ns, vs) == [i \in 1..(Len(ns) * Len(vs)) |->
                      [k |-> k, n |-> ns[1 + ((i - 1) % Len(ns))], v |-> vs[1 + ((i - 1) \div Len(ns))]]]
Both == [i \in 1..(Len(Pairs) * Len(Control)) |->
            Pairs[1 + ((i - 1) % Len(Pairs))] \o Control[1 + ((i - 1) \div Len(Pairs))]]
Kit == TLCEval(Some("R", Pairs, <<1, 2>>) \o Some("V", Pairs, <<0, 3>>) \o Some("I", Pairs, <<2>>)
               \o Some("E", Both, <<1, -2>>) \o Some("G", Both, <<1, -1>>))

-----------------------------------------------------------------------------
(* The equations: current balances in half siemens, then the voltage laws.    *)
(* Unknowns: the two voltages, then the branch currents; the known side last. *)

HasBranch(e) == e.k \in {"V", "E"}
Branches(els) == SelectSeq([i \in 1..Len(els) |-> i], LAMBDA i : HasBranch(els[i]))
Used(els) == UNION {{els[i].n[j] : j \in 1..Len(els[i].n)} : i \in 1..Len(els)}

Put(m, r, c, y) == IF r = 0 \/ c = 0 THEN m ELSE [m EXCEPT ![r][c] = @ + y]
\* y times unknown c leaves a and enters b
Through(m, a, b, c, y) == Put(Put(m, a, c, y), b, c, -y)
Stamp(m, e, row, last) ==
    LET a == e.n[1] b == e.n[2]
    IN CASE e.k = "R" -> LET g == 2 \div e.v IN Through(Through(m, a, b, a, g), a, b, b, -g)
         [] e.k = "I" -> Put(Put(m, a, last, -2 * e.v), b, last, 2 * e.v)
         [] e.k = "G" -> Through(Through(m, a, b, e.n[3], 2 * e.v), a, b, e.n[4], -2 * e.v)
         [] e.k = "V" -> Put(Put(Put(Through(m, a, b, row, 2), row, a, 1), row, b, -1), row, last, e.v)
         [] e.k = "E" -> Put(Put(Put(Put(Through(m, a, b, row, 2), row, a, 1), row, b, -1),
                                 row, e.n[3], -e.v), row, e.n[4], e.v)

Equations(els) ==
    LET br == Branches(els)
        n == 2 + Len(br)
        row(i) == IF HasBranch(els[i]) THEN 2 + (CHOOSE b \in 1..Len(br) : br[b] = i) ELSE 0
        none == [r \in 1..n |-> [c \in 1..(n + 1) |-> 0]]
        m == FoldLeft(LAMBDA acc, i : Stamp(acc, els[i], row(i), n + 1), none, [i \in 1..Len(els) |-> i])
    IN [r \in 1..n |-> IF r <= 2 /\ r \notin Used(els) THEN [m[r] EXCEPT ![r] = 1] ELSE m[r]]

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduced(row) ==
    LET g == FoldLeft(LAMBDA acc, y : Gcd(acc, Abs(y)), 0, row)
    IN IF g <= 1 THEN row ELSE [c \in 1..Len(row) |-> IF row[c] < 0 THEN -(Abs(row[c]) \div g) ELSE row[c] \div g]

\* Gauss and Jordan, row r to get a leading coefficient in column c or later
RECURSIVE Echelon(_, _, _)
Echelon(m, r, c) ==
    IF r > Len(m) \/ c > Len(m) THEN [m |-> m, rank |-> r - 1]
    ELSE LET ps == {p \in r..Len(m) : m[p][c] # 0}
         IN IF ps = {} THEN Echelon(m, r, c + 1)
            ELSE LET p == CHOOSE x \in ps : TRUE
                     w == [m EXCEPT ![r] = m[p], ![p] = m[r]]
                     x == [q \in 1..Len(m) |->
                             IF q = r \/ w[q][c] = 0 THEN w[q]
                             ELSE Reduced([k \in 1..(Len(m) + 1) |-> w[q][k] * w[r][c] - w[r][k] * w[q][c]])]
                 IN Echelon(TLCEval(x), r + 1, c + 1)

\* [how, x]: x is a sequence of <<numerator, denominator>>, one for each unknown
Worked(els) ==
    LET z == Echelon(TLCEval(Equations(els)), 1, 1)
        n == Len(z.m)
        clash == \E r \in 1..n : z.m[r][n + 1] # 0 /\ \A c \in 1..n : z.m[r][c] = 0
    IN IF clash THEN [how |-> "none", x |-> << >>]
       ELSE IF z.rank < n THEN [how |-> "many", x |-> << >>]
       ELSE [how |-> "one",
             x |-> [r \in 1..n |-> LET d == z.m[r][r] y == z.m[r][n + 1] g == Gcd(Abs(y), Abs(d))
                                   IN IF d < 0 THEN <<-(y \div g), Abs(d) \div g>> ELSE <<y \div g, d \div g>>]]

-----------------------------------------------------------------------------
(* One circuit after the other: indices into the kit, not decreasing *)

VARIABLES ks, w
vars == <<ks, w>>
Els == [i \in 1..Len(ks) |-> Kit[ks[i]]]
Mix(s) == FoldLeft(LAMBDA a, k : (a * 131 + k * 17 + 7) % 10007, Seed % 10007, s)
Init == ks = << >> /\ w = [how |-> "one", x |-> << >>]
Add == /\ Len(ks) < Most
       /\ \E k \in (IF ks = << >> THEN 1 ELSE ks[Len(ks)])..Len(Kit) :
             /\ (Len(ks) + 1 = Most => Mix(Append(ks, k)) % Part = 0)
             /\ ks' = Append(ks, k)
       /\ w' = TLCEval(Worked(Els'))
Spec == Init /\ [][Add]_vars

-----------------------------------------------------------------------------
(* The laws, one element at a time, with a common denominator *)

Lcm(a, b) == (a \div Gcd(a, b)) * b
Denominator == FoldLeft(LAMBDA a, q : Lcm(a, q[2]), 1, w.x)
At(node) == IF node = 0 THEN 0 ELSE w.x[node][1] * (Denominator \div w.x[node][2])
Branch(i) == LET b == CHOOSE b \in 1..Len(Branches(Els)) : Branches(Els)[b] = i
             IN w.x[2 + b][1] * (Denominator \div w.x[2 + b][2])
\* twice the current through element i, from its first node to its second
Current(i) ==
    LET e == Els[i]
    IN CASE e.k = "R" -> (2 \div e.v) * (At(e.n[1]) - At(e.n[2]))
         [] e.k = "I" -> 2 * e.v * Denominator
         [] e.k = "G" -> 2 * e.v * (At(e.n[3]) - At(e.n[4]))
         [] OTHER -> 2 * Branch(i)
Balance(node) == FoldLeft(LAMBDA a, i : a + (IF Els[i].n[1] = node THEN Current(i) ELSE 0)
                                          - (IF Els[i].n[2] = node THEN Current(i) ELSE 0),
                          0, [i \in 1..Len(ks) |-> i])
Lawful == w.how = "one" /\ ks # << >> =>
    /\ \A node \in {1, 2} : Balance(node) = 0
    /\ \A node \in {1, 2} \ Used(Els) : At(node) = 0
    /\ \A i \in 1..Len(ks) : Els[i].k = "V" => At(Els[i].n[1]) - At(Els[i].n[2]) = Els[i].v * Denominator
    /\ \A i \in 1..Len(ks) : Els[i].k = "E" =>
          At(Els[i].n[1]) - At(Els[i].n[2]) = Els[i].v * (At(Els[i].n[3]) - At(Els[i].n[4]))

Back == [i \in 1..Len(ks) |-> Els[Len(ks) + 1 - i]]
Mirror(node) == IF node = 0 THEN 0 ELSE 3 - node
Mirrored == [i \in 1..Len(ks) |-> [Els[i] EXCEPT !.n = [j \in 1..Len(@) |-> Mirror(@[j])]]]
AnyOrder == ks # << >> =>
    LET b == Worked(Back) IN b.how = w.how /\ (w.how = "one" => \A node \in {1, 2} : b.x[node] = w.x[node])
AnyNumbers == ks # << >> =>
    LET b == Worked(Mirrored) IN b.how = w.how /\ (w.how = "one" => \A node \in {1, 2} : b.x[node] = w.x[3 - node])

Printed == ks # << >> => PrintT("CASE " \o ToJson([els |-> Els, how |-> w.how]))
=================================================================================
