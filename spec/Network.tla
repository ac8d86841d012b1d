------------------------------- MODULE Network -------------------------------
(* What it means for voltages and currents to be a solution of a circuit.    *)
(*                                                                           *)
(* A point is [t, v, j]: time, voltage of each node by name, and the branch  *)
(* currents of V, VSIN, VPWL and E elements in circuit order (positive from  *)
(* the + terminal through the source to the - terminal).                     *)
(* The laws are checked against tolerances g = [rel, dv, dt, newton, RELTOL, *)
(* VNTOL]: relative rounding, resolution of written voltages/currents and    *)
(* times, and, for diodes, how far Newton's iteration may still have moved.  *)
EXTENDS Sources, Flatten, FiniteSetsExt

Exact(cfg)   == [rel |-> "1e-9", dv |-> N0, dt |-> N0,
                 RELTOL |-> cfg.RELTOL, VNTOL |-> cfg.VNTOL, ABSTOL |-> cfg.ABSTOL]
Written(cfg) == [rel |-> "1e-9", dv |-> "6e-10", dt |-> "6e-10",
                 RELTOL |-> cfg.RELTOL, VNTOL |-> cfg.VNTOL, ABSTOL |-> cfg.ABSTOL]

\* diode law; the simulator's thermal voltage is k (363 + T) / q
Boltzmann == "1.3806488e-23"
Charge    == "1.603e-19"
Gmin      == "1e-12"
Vthermal(tdegc) == NDiv(NMul(Boltzmann, NAdd("363.0", tdegc)), Charge)
DiodeCurrent(isat, vt, v) == NMul(isat, NSub(NExp(NDiv(v, vt)), N1))
DiodeSlope(isat, vt, v)   == NMul(NDiv(isat, vt), NExp(NDiv(v, vt)))

Moved(g, v) == NAdd(NMul(g.RELTOL, NAbs(v)), g.VNTOL)

-----------------------------------------------------------------------------
(* Currents leaving nodes.  A sum is [s, a, tol]: value, sum of magnitudes,  *)
(* and what the tolerances of its terms allow.                               *)

NoSum == [s |-> N0, a |-> N0, tol |-> N0]
Leaves(sums, node, i, tol) ==
    IF node = Ground THEN sums
    ELSE [sums EXCEPT ![node] = [s |-> NAdd(@.s, i), a |-> NAdd(@.a, NAbs(i)), tol |-> NAdd(@.tol, tol)]]
Flows(sums, p, n, i, tol) == Leaves(Leaves(sums, p, i, tol), n, NNeg(i), tol)

Across(x, e, i, j) == NSub(x.v[e.n[i]], x.v[e.n[j]])

Resistor(sums, e, x, g) ==
    Flows(sums, e.n[1], e.n[2], NDiv(Across(x, e, 1, 2), e.v[1]),
          NAbs(NDiv(NMul(N2, g.dv), e.v[1])))

\* backward Euler from the previous point; no current in a DC operating point
Capacitor(sums, e, x, prev, g) ==
    IF prev = << >> THEN sums
    ELSE LET dt == NSub(x.t, prev.t)
             i  == NMul(NDiv(e.v[1], dt), NSub(Across(x, e, 1, 2), Across(prev, e, 1, 2)))
         IN Flows(sums, e.n[1], e.n[2], i,
                  NAdd(NAbs(NMul(NDiv(e.v[1], dt), NMul("4.0", g.dv))),
                       NMul(NAbs(i), NDiv(NMul(N2, g.dt), dt))))

CurrentSource(sums, e, x, g) ==
    Flows(sums, e.n[1], e.n[2], SourceAt(e.kind, e.v, x.t), SourceBlur(e.kind, e.v, x.t, g.dt))

Transconductor(sums, e, x, g) ==
    Flows(sums, e.n[1], e.n[2], NMul(e.v[1], Across(x, e, 3, 4)),
          NAbs(NMul(e.v[1], NMul(N2, g.dv))))

BranchCurrent(sums, e, x, b, g) == Flows(sums, e.n[1], e.n[2], x.j[b], g.dv)

\* the last linearisation was at most the convergence tolerances away
Diode(sums, e, x, g) ==
    LET vt    == Vthermal(e.v[2])
        vd    == Across(x, e, 1, 2)
        moved == NAdd(Moved(g, x.v[e.n[1]]), Moved(g, x.v[e.n[2]]))
        most  == NAdd(vd, moved)
        r     == NDiv(moved, vt)
        bend  == NMul(NMul(e.v[1], NExp(NDiv(most, vt))), NMul("0.5", NMul(r, r)))
        tol   == NAdd(NAdd(bend, NMul(Gmin, moved)),
                      NMul(NAdd(DiodeSlope(e.v[1], vt, most), Gmin),
                           NAdd(NMul(N2, g.dv), g.VNTOL)))
    IN Flows(sums, e.n[1], e.n[2], DiodeCurrent(e.v[1], vt, vd), tol)

Stamp(acc, e, x, prev, g) ==
    LET s == acc.sums
    IN [sums |->
          CASE e.kind = "R" -> Resistor(s, e, x, g)
            [] e.kind = "C" -> Capacitor(s, e, x, prev, g)
            [] e.kind \in {"I", "ISIN"} -> CurrentSource(s, e, x, g)
            [] e.kind = "G" -> Transconductor(s, e, x, g)
            [] e.kind = "D" -> Diode(s, e, x, g)
            [] OTHER -> BranchCurrent(s, e, x, acc.b, g),
        b |-> IF HasBranch(e.kind) THEN acc.b + 1 ELSE acc.b]

Sums(els, nodes, x, prev, g) ==
    FoldLeft(LAMBDA acc, e : Stamp(acc, e, x, prev, g),
             [sums |-> [n \in nodes |-> NoSum], b |-> 1], els).sums

-----------------------------------------------------------------------------
(* The size of the numbers a solver works with, for its rounding errors *)

MaxOf(seq) == FoldLeft(LAMBDA m, y : NMax(m, y), N0, seq)
Coefficient(e, x, prev) ==
    CASE e.kind = "R" -> NAbs(NDiv(N1, e.v[1]))
      [] e.kind = "C" -> IF prev = << >> THEN N0 ELSE NAbs(NDiv(e.v[1], NSub(x.t, prev.t)))
      [] e.kind = "D" -> DiodeSlope(e.v[1], Vthermal(e.v[2]), Across(x, e, 1, 2))
      [] e.kind \in {"E", "G"} -> NMax(N1, NAbs(e.v[1]))
      [] e.kind \in {"I", "ISIN"} -> N0
      [] OTHER -> N1
Size(els, x, prev) == MaxOf([i \in 1..Len(els) |-> Coefficient(els[i], x, prev)])
Images(f) == {f[y] : y \in DOMAIN f}
Largest(x) == NMax(FoldSet(LAMBDA y, m : NMax(m, NAbs(y)), N0, Images(x.v)),
                   MaxOf([i \in 1..Len(x.j) |-> NAbs(x.j[i])]))

\* (next to) nothing anywhere: this is what a step's iterations begin with, so
\* they may end at once, with the diodes as they were in the step before
AtRest(x, g) ==
    LET small(y, abs) == NLe(NMul(NAbs(y), NSub(N1, g.RELTOL)), NAdd(abs, g.dv))
    IN /\ \A n \in DOMAIN x.v : small(x.v[n], g.VNTOL)
       /\ \A b \in 1..Len(x.j) : small(x.j[b], g.ABSTOL)
AtDiodes(els) == UNION {{els[i].n[k] : k \in 1..2} : i \in {i \in 1..Len(els) : els[i].kind = "D"}}

-----------------------------------------------------------------------------
(* The laws.  Each names what does not hold; "" when all is well. *)

VoltageLaw(e, x, g, floor) ==
    IF e.kind = "E"
    THEN LET want == NMul(e.v[1], Across(x, e, 3, 4))
             have == Across(x, e, 1, 2)
         IN NNear(have, want, g.rel,
                  NAdd(NMul(NMul(N2, g.dv), NAdd(N1, NAbs(e.v[1]))), floor))
    ELSE NNear(Across(x, e, 1, 2), SourceAt(e.kind, e.v, x.t), g.rel,
               NAdd(NAdd(NMul(N2, g.dv), SourceBlur(e.kind, e.v, x.t, g.dt)), floor))

Unlawful(els, nodes, x, prev, g) ==
    LET floor == NMul("1e-12", NMul(NMax(N1, Size(els, x, prev)), Largest(x)))
        cfloor == NMul("1e-12", NMul(Size(els, x, prev), Largest(x)))
        sums  == TLCEval(Sums(els, nodes, x, prev, g))
        used  == UNION {{els[i].n[k] : k \in 1..Len(els[i].n)} : i \in 1..Len(els)}
        loose == IF prev # << >> /\ AtRest(x, g) THEN AtDiodes(els) ELSE {}
        offKCL(n) == n \notin loose /\ ~ NLe(NAbs(sums[n].s), NAdd(NAdd(NMul(g.rel, sums[n].a), sums[n].tol), cfloor))
        offLaw(i) == HasBranch(els[i].kind) /\ ~ VoltageLaw(els[i], x, g, floor)
    IN IF \E n \in nodes : ~ NFinite(x.v[n]) THEN "not a number"
       ELSE IF \E i \in 1..Len(x.j) : ~ NFinite(x.j[i]) THEN "not a number"
       ELSE IF ~ NEq(x.v[Ground], N0) THEN "ground is not at 0 V"
       ELSE IF Len(x.j) # Len(Branches(els)) THEN "number of branch currents"
       ELSE IF \E n \in nodes \ (used \cup {Ground}) : ~ NLe(NAbs(x.v[n]), g.dv)
            THEN "unconnected node is not at 0 V"
       ELSE IF \E n \in nodes \ {Ground} : offKCL(n)
            THEN "currents do not balance at " \o (CHOOSE n \in nodes \ {Ground} : offKCL(n))
       ELSE IF \E i \in 1..Len(els) : offLaw(i)
            THEN "voltage law of " \o els[CHOOSE i \in 1..Len(els) : offLaw(i)].name
       ELSE ""
=============================================================================
