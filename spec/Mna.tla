---------------------------------- MODULE Mna ----------------------------------
(* The solution of a linear circuit: the nodal equations set up element by   *)
(* element and solved by elimination with partial pivoting.                  *)
(*                                                                           *)
(* Unknowns are the voltages of the nodes in seq (ground left out), then the *)
(* branch currents.  A system is a sequence of rows, the known side last.    *)
EXTENDS Network

Unknowns(nodes) == SetToSeq(nodes \ {Ground})
Place(seq, node) == IF node = Ground THEN 0 ELSE CHOOSE i \in 1..Len(seq) : seq[i] = node

Put(m, r, c, y) == IF r = 0 \/ c = 0 THEN m ELSE [m EXCEPT ![r][c] = NAdd(@, y)]

\* y leaves node a in proportion to the unknown c, and enters b
Through(m, a, b, c, y) == Put(Put(m, a, c, y), b, c, NNeg(y))
\* known current leaves a and enters b
Known(m, a, b, y) == LET k == Len(m) + 1 IN Put(Put(m, a, k, NNeg(y)), b, k, y)

Conduct(m, a, b, g) == Through(Through(m, a, b, a, g), a, b, b, NNeg(g))
\* v(a) - v(b) - k (v(c) - v(d)) = y, with unknown row r the current from a to b
Hold(m, r, a, b, k, c, d, y) ==
    LET n == Len(m) + 1
        m1 == Through(m, a, b, r, N1)
        m2 == Put(Put(m1, r, a, N1), r, b, NNeg(N1))
        m3 == Put(Put(m2, r, c, NNeg(k)), r, d, k)
    IN Put(m3, r, n, y)

StampMna(acc, e, seq, t, prev, dt) ==
    LET m == acc.m
        at(i) == Place(seq, e.n[i])
        src == SourceAt(e.kind, e.v, t)
        g == NDiv(e.v[1], dt)
    IN [m |->
          CASE e.kind = "R" -> Conduct(m, at(1), at(2), NDiv(N1, e.v[1]))
            [] e.kind = "C" ->
                 IF prev = << >> THEN m
                 ELSE Known(Conduct(m, at(1), at(2), g), at(1), at(2),
                            NNeg(NMul(g, Across(prev, e, 1, 2))))
            [] e.kind \in {"I", "ISIN"} -> Known(m, at(1), at(2), src)
            [] e.kind = "G" -> Through(Through(m, at(1), at(2), at(3), e.v[1]),
                                       at(1), at(2), at(4), NNeg(e.v[1]))
            [] e.kind = "E" -> Hold(m, acc.b, at(1), at(2), e.v[1], at(3), at(4), N0)
            [] OTHER -> Hold(m, acc.b, at(1), at(2), N0, 0, 0, src),
        b |-> IF HasBranch(e.kind) THEN acc.b + 1 ELSE acc.b]

System(els, seq, t, prev, dt) ==
    LET n == Len(seq) + Len(Branches(els))
        zero == [r \in 1..n |-> [c \in 1..(n + 1) |-> N0]]
        m == FoldLeft(LAMBDA acc, e : StampMna(acc, e, seq, t, prev, dt),
                      [m |-> zero, b |-> Len(seq) + 1], els).m
        used == UNION {{els[i].n[k] : k \in 1..Len(els[i].n)} : i \in 1..Len(els)}
    IN [r \in 1..n |-> IF r <= Len(seq) /\ seq[r] \notin used
                       THEN [m[r] EXCEPT ![r] = N1] ELSE m[r]]

\* row of the largest coefficient of unknown c, from row c on
Pivot(m, c) ==
    FoldLeft(LAMBDA best, r : IF NLt(NAbs(m[best][c]), NAbs(m[r][c])) THEN r ELSE best,
             c, [i \in 1..(Len(m) - c) |-> c + i])

Swapped(m, a, b) == [m EXCEPT ![a] = m[b], ![b] = m[a]]

RECURSIVE Eliminate(_, _)
Eliminate(m, c) ==
    IF c > Len(m) THEN m
    ELSE LET w == TLCEval(Swapped(m, c, Pivot(m, c)))
             less(r) == LET f == TLCEval(NDiv(w[r][c], w[c][c]))
                        IN [k \in 1..(Len(m) + 1) |-> NSub(w[r][k], NMul(f, w[c][k]))]
         IN Eliminate(TLCEval([r \in 1..Len(m) |->
                         IF r <= c \/ NEq(w[r][c], N0) THEN w[r] ELSE less(r)]), c + 1)

RECURSIVE Back(_, _, _)
Back(m, r, x) ==     \* x holds the unknowns after r
    IF r = 0 THEN x
    ELSE LET n == Len(m)
             sum == FoldLeft(LAMBDA a, k : NAdd(a, NMul(m[r][r + k], x[k])), N0,
                             [k \in 1..(n - r) |-> k])
         IN Back(m, r - 1, TLCEval(<<NDiv(NSub(m[r][n + 1], sum), m[r][r])>> \o x))

Solution(els, nodes, t, prev, dt) ==
    LET seq == TLCEval(Unknowns(nodes))
        x == TLCEval(LET m == TLCEval(Eliminate(TLCEval(System(els, seq, t, prev, dt)), 1)) IN Back(m, Len(m), << >>))
    IN [t |-> t,
        v |-> [n \in nodes |-> IF n = Ground THEN N0 ELSE x[Place(seq, n)]],
        j |-> [b \in 1..Len(Branches(els)) |-> x[Len(seq) + b]]]

IsLinear(els) == \A i \in 1..Len(els) : els[i].kind # "D"

\* does the solver take x for converged, y being its solution before?
AgreesWithin(x, y, abs, rel) ==
    NFinite(x) /\ NLe(NAbs(NSub(x, y)), NAdd(NMul(rel, NAbs(x)), abs))
Agrees(x, y, cfg) ==
    /\ \A n \in DOMAIN x.v : AgreesWithin(x.v[n], y.v[n], cfg.VNTOL, cfg.RELTOL)
    /\ \A b \in 1..Len(x.j) : AgreesWithin(x.j[b], y.j[b], cfg.ABSTOL, cfg.RELTOL)
Wild(x) == \/ \E n \in DOMAIN x.v : ~ NFinite(x.v[n])
           \/ \E b \in 1..Len(x.j) : ~ NFinite(x.j[b])
NoPoint(els, nodes) == [t |-> N0, v |-> [n \in nodes |-> N0],
                        j |-> [b \in 1..Len(Branches(els)) |-> N0]]
=============================================================================
