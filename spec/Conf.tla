---------------------------------- MODULE Conf ----------------------------------
(* Recorded runs of the simulator, followed by the specification.            *)
(*                                                                           *)
(* A case is a deck with its library files, what to look at (want), and what *)
(* the simulator did with it (obs).  The reader reads the deck line by line, *)
(* the hierarchy is flattened, and each thing the simulator showed has to be *)
(* what the specification says, or one of the things it allows: whether the  *)
(* deck was refused, the settings, the expanded circuit, the operating point *)
(* and the rows of the waveform file.  Every behaviour ends in a verdict.    *)
EXTENDS Mna, Builder, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES i,      \* the case
          ph,     \* phase
          rd,     \* reader
          flat,   \* flattened circuit
          k,      \* rows looked at
          cols,   \* columns of the waveform file
          st,     \* what follows the rows (step control)
          bad,    \* what is wrong; "" if nothing is
          note    \* remark on the verdict
vars == <<i, ph, rd, flat, k, cols, st, bad, note>>

Case == Cases[i]
Obs  == Case.obs
Saw(x) == \E n \in 1..Len(Obs.saw) : Obs.saw[n] = x     \* net, op, tran
Wants(x) == \E w \in 1..Len(Case.want) : Case.want[w] = x
Files == [f \in {Case.names[n] : n \in 1..Len(Case.names)} |->
            Case.files[CHOOSE n \in 1..Len(Case.names) : Case.names[n] = f]]

Built == Case.calls # << >>      \* there is no deck: the circuit is built by calls

\* the settings read from the deck, with those the case was run with instead
Config == FoldLeft(LAMBDA c, o : [c EXCEPT ![o[1]] = o[2]], rd.cfg, Case.over)

Init == /\ i \in 1..Len(Cases)
        /\ ph = (IF Built THEN "build" ELSE "read") /\ rd = StartReading(Case.main)
        /\ flat = Nothing /\ k = 0 /\ cols = << >> /\ st = (IF Built THEN Fresh(NoConfig) ELSE << >>) /\ bad = "" /\ note = ""

-----------------------------------------------------------------------------
(* Reading the deck *)

ReadLine == /\ ph = "read" /\ rd.status = "reading"
            /\ rd' = Read(rd, Files)
            /\ UNCHANGED <<i, ph, flat, k, cols, st, bad, note>>

\* no results came of the deck
Refused == Obs.read # "ok" \/ (Saw("net") /\ Obs.net.status # "ok")

NumbersSame(v, w) == Len(v) = Len(w) /\ \A n \in 1..Len(v) : NSame(v[n], w[n])

WrongConfig(cfg) ==
    LET off(f) == IF f \in {"kind", "ITL1", "ITL3", "ITL4"} THEN cfg[f] # Obs.cfg[f]
                  ELSE ~ NSame(cfg[f], Obs.cfg[f])
    IN IF \E f \in DOMAIN cfg : off(f)
       THEN "setting " \o (CHOOSE f \in DOMAIN cfg : off(f)) ELSE ""

SameElement(e, o, ids) ==
    /\ e.kind = o[1]
    /\ Len(e.n) = Len(o[2])
    /\ \/ \A n \in 1..Len(e.n) : ids[e.n[n]] = o[2][n]
       \/ e.kind \in {"R", "C"} /\ ids[e.n[1]] = o[2][2] /\ ids[e.n[2]] = o[2][1]
    /\ NumbersSame(e.v, o[3])

\* the observed elements left over when each element has found its like;
\* <<>> in the first place when one hasn't
Unmatched(els, obs, ids, Same(_, _, _)) ==
    FoldLeft(LAMBDA acc, e :
        IF acc.lost # "" THEN acc
        ELSE LET n == SelectInSeq(acc.left, LAMBDA o : Same(e, o, ids))
             IN IF n = 0 THEN [acc EXCEPT !.lost = e.name]
                ELSE [acc EXCEPT !.left = RemoveAt(@, n)],
        [lost |-> "", left |-> obs], els)

WrongListing(f, ids, els, Same(_, _, _)) ==
    LET missing == {n \in f.nodes : n \notin DOMAIN ids}
        r == Unmatched(f.els, els, ids, Same)
    IN IF missing # {} THEN "no node " \o (CHOOSE n \in missing : TRUE)
       ELSE IF \E a, b \in f.nodes : a # b /\ ids[a] = ids[b]
       THEN LET a == CHOOSE a \in f.nodes : \E b \in f.nodes : a # b /\ ids[a] = ids[b]
            IN "node shared with another: " \o a
       ELSE IF ids[Ground] # 0 THEN "ground is not node 0"
       ELSE IF r.lost # "" THEN "no such element: " \o r.lost
       ELSE IF r.left # << >> THEN "extra element"
       ELSE ""

WrongCircuit(f) == WrongListing(f, Obs.net.nodes, Obs.net.els, SameElement)

\* each node is shown under its outermost name
WrongNames(f) ==
    LET lut == Obs.net.lut
    IN IF {lut[n][2] : n \in 1..Len(lut)} # f.nodes THEN "nodes go by other names"
       ELSE IF Len(lut) # Cardinality(f.nodes) THEN "number of node names"
       ELSE IF \E n \in 1..Len(lut) : Obs.net.nodes[lut[n][2]] # lut[n][1]
       THEN "name of another node" ELSE ""

First(checks) == \* the first complaint
    LET n == SelectInSeq(checks, LAMBDA c : c # "") IN IF n = 0 THEN "" ELSE checks[n]

(* The program itself, run on the deck by its name: Obs.cli is a sequence of   *)
(* runs [path, disk, ended, errors, wrote], wrote the files that came of it, each   *)
(* [name, digest].  Obs.lib has the digests of what the library wrote.        *)
WaveFile(path) == "waves/" \o path \o "/tran.dat"
NoResults == \A n \in 1..Len(Obs.cli) : Obs.cli[n].wrote = << >>

WrongCli ==
    LET runs == Obs.cli
        broke == Saw("tran") /\ Obs.tran.status # "ok"
    IN IF \E n \in 1..Len(runs) : runs[n].ended # runs[1].ended THEN "ends in different ways"
       ELSE IF \E n \in 1..Len(runs) : runs[n].errors # runs[1].errors THEN "errors differ from run to run"
       ELSE IF rd.cfg.kind # "tran"
       THEN (IF ~ NoResults THEN "writes waveforms without having been asked to"
             ELSE IF rd.cfg.kind = "none" /\ \E n \in 1..Len(runs) : runs[n].ended = "well" /\ runs[n].errors = 0
             THEN "no analysis, and no word of it" ELSE "")
       ELSE IF broke THEN ""
       ELSE IF \E n \in 1..Len(runs) : runs[n].disk # "good"     \* nowhere to put the waveforms
       THEN (IF \E n \in 1..Len(runs) : runs[n].ended = "well" /\ runs[n].errors = 0
             THEN "says nothing of waveforms it could not write" ELSE "")
       ELSE IF \E n \in 1..Len(runs) : runs[n].ended # "well" THEN "program stopped"
       ELSE IF \E n \in 1..Len(runs) : Len(runs[n].wrote) # 1 THEN "number of files written"
       ELSE IF \E n \in 1..Len(runs) : runs[n].wrote[1][1] # WaveFile(runs[n].path) THEN "name of the waveform file"
       ELSE IF \E n \in 1..Len(runs), m \in 1..Len(Obs.lib) : runs[n].wrote[1][2] # Obs.lib[m] THEN "waveform files differ"
       ELSE ""

\* [op errors, tran errors] is what the library's analyses said
WrongCliErrors ==
    IF \E n \in 1..Len(Obs.cli) : Obs.cli[n].disk # "good" THEN ""
    ELSE IF rd.cfg.kind = "tran" /\ Saw("tran") /\ Obs.tran.status = "ok"
       /\ \E n \in 1..Len(Obs.cli) : (Obs.cli[n].errors > 0) # (Obs.tran.errors > 0)
    THEN "errors of the program" ELSE
    IF rd.cfg.kind = "op" /\ Saw("op") /\ Obs.op.status = "ok"
       /\ \E n \in 1..Len(Obs.cli) : (Obs.cli[n].errors > 0) # (Obs.op.errors > 0)
    THEN "errors of the program" ELSE ""

(* What the program says of a run (log): the circuit it simulates, element by  *)
(* element and node by node; how many nodes and sources there are; the window,*)
(* the file and the end of a transient analysis; that it is done.             *)
\* (not all of an element is listed)
Listed(e) == CASE e.kind = "VPWL" -> << >> [] e.kind = "D" -> << e.v[1] >> [] OTHER -> e.v
SameListed(e, o, ids) ==
    /\ SameElement([e EXCEPT !.v = Listed(e)], o, ids)
    /\ e.kind \in {"R", "C", "D", "E", "G"} => o[4] = e.name

WrongLog(f, run) ==
    LET log == run.log
        tran == rd.cfg.kind = "tran" /\ Saw("tran") /\ Obs.tran.status = "ok"
        ran == rd.cfg.kind # "none"
    IN IF log.listings # 1 THEN "circuit isn't listed"
       ELSE IF WrongListing(f, log.nodes, log.els, SameListed) # "" THEN "listing: " \o WrongListing(f, log.nodes, log.els, SameListed)
       ELSE IF log.defs = << >> \/ log.defs[Len(log.defs)] # Len(rd.ckts) - 1 THEN "number of definitions"
       ELSE IF run.ended # "well" THEN ""
       ELSE IF ran /\ log.count # << Cardinality(f.nodes) >> THEN "number of nodes"
       ELSE IF ran /\ log.sources # << Len(Branches(f.els)) >> THEN "number of sources"
       ELSE IF (log.done = 1) # ran THEN "done, or not"
       ELSE IF rd.cfg.kind # "tran" /\ (log.window # << >> \/ log.into # << >> \/ log.end # << >>) THEN "says more than was done"
       ELSE IF ~ tran THEN ""
       ELSE IF Len(log.window) # 1 THEN "no window"
       ELSE IF ~ (/\ NSame(log.window[1][1], rd.cfg.TSTART) /\ NSame(log.window[1][2], rd.cfg.TSTOP)
                  /\ NNear(log.window[1][3], rd.cfg.TSTEP, "0.0", "6e-13")) THEN "window"
       ELSE IF run.disk = "good" /\ log.into # << WaveFile(run.path) >> THEN "name of the file written to"
       ELSE IF ~ (Len(log.end) = 1 /\ NSame(log.end[1], Obs.tran.end)) THEN "end"
       ELSE ""
WrongLogs(f) ==
    LET n == SelectInSeq(Obs.cli, LAMBDA run : WrongLog(f, run) # "")
    IN IF n = 0 THEN "" ELSE "the program's account: " \o WrongLog(f, Obs.cli[n])

\* a deck that is refused is said to be, and nothing else is said to have been done
SaysSo == \A n \in 1..Len(Obs.cli) :
    LET run == Obs.cli[n]
    IN /\ run.log.said > 0
       /\ run.log.done = 0 /\ run.log.end = << >> /\ run.log.window = << >> /\ run.log.into = << >>

\* no results came of the deck
RefusedEverywhere == Refused /\ ("cli" \in DOMAIN Obs => NoResults)

Silent == IF Wants("log") /\ ~ SaysSo THEN "the program doesn't say that the deck is refused" ELSE ""

\* what came of the same thing again: digests of settings, circuit and results
Varying ==
    IF ~ Wants("again") \/ \A n \in 1..Len(Obs.again) : Obs.again[n] = Obs.again[1] THEN ""
    ELSE LET n == CHOOSE n \in 1..Len(Obs.again) : Obs.again[n] # Obs.again[1]
         IN "differs from one time to the next: " \o (CHOOSE f \in DOMAIN Obs.again[n] : Obs.again[n][f] # Obs.again[1][f])

Done(complaint, remark) == /\ ph' = "end" /\ bad' = complaint /\ note' = remark
                           /\ UNCHANGED <<i, k, cols, st>>
Onto(phase) == ph' = phase /\ UNCHANGED <<i, k, cols, st, bad, note>>

Judge ==
    /\ ph = "read" /\ rd.status # "reading"
    /\ UNCHANGED rd
    /\ IF rd.status = "rejected"
       THEN /\ UNCHANGED flat
            /\ Done(IF ~ RefusedEverywhere THEN "accepted a deck to be refused: " \o rd.why ELSE Silent, "refused")
       ELSE LET f == Flat(rd)
            IN /\ flat' = f
               /\ IF f.loose THEN Done("", "loose")
                  ELSE IF ~ f.ok
                  THEN Done(IF ~ RefusedEverywhere THEN "accepted a circuit to be refused: " \o f.why ELSE Silent, "refused")
                  ELSE IF Refused THEN Done("refused a good deck", "")
                  ELSE LET complaint == First(<<
                              IF Wants("config") THEN WrongConfig(rd.cfg) ELSE "",
                              IF Saw("net") /\ Wants("circuit") THEN WrongCircuit(f) ELSE "",
                              IF Saw("net") /\ Wants("names") THEN WrongNames(f) ELSE "",
                              Varying,
                              IF Wants("cli") THEN First(<<WrongCli, WrongCliErrors>>) ELSE "",
                              IF Wants("log") THEN WrongLogs(f) ELSE "">>)
                       IN IF complaint # "" THEN Done(complaint, "")
                          ELSE IF Saw("op") /\ ~ Wants("log") THEN Onto("op")
                          ELSE Done("", "")

-----------------------------------------------------------------------------
(* A circuit built by calls: st is the builder *)

BuildCall ==
    /\ ph = "build" /\ Obs.read = "ok" /\ k < Len(Case.calls)
    /\ LET c == Case.calls[k + 1]
           a == TLCEval(Call(st, c))
           got == Obs.rets[k + 1]
       IN /\ st' = a.b
          /\ k' = k + 1
          /\ bad' = IF got = a.ret \/ (a.ret = "ran" /\ got = "stopped") THEN ""
                    ELSE "call " \o c.f \o " " \o c.name \o " returned " \o got \o " instead of " \o a.ret
          /\ ph' = IF bad' = "" THEN "build" ELSE "end"
    /\ UNCHANGED <<i, rd, flat, cols, note>>

\* the elements are just those that were put there, in their order
WrongElements(b) ==
    LET off(e, o, idx) == ~ (/\ e.kind = o[1] /\ e.n = o[2] /\ NumbersSame(e.v, o[3])
                             /\ HasBranch(e.kind) => o[4] = idx)
        before(m) == Len(SelectSeq(SubSeq(b.els, 1, m - 1), LAMBDA e : HasBranch(e.kind)))
    IN IF Len(Obs.net.els) # Len(b.els) THEN "number of elements"
       ELSE IF \E m \in 1..Len(b.els) : off(b.els[m], Obs.net.els[m], before(m))
       THEN "element " \o b.els[CHOOSE m \in 1..Len(b.els) : off(b.els[m], Obs.net.els[m], before(m))].name
       ELSE ""
WrongBuilt(b) ==
    IF DOMAIN Obs.net.nodes # DOMAIN b.ids THEN "names of nodes"
    ELSE IF \E x \in DOMAIN b.ids : Obs.net.nodes[x] # b.ids[x] THEN "number of a node"
    ELSE IF b.lut /\ WrongShown(b, Obs.net.lut) # "" THEN WrongShown(b, Obs.net.lut)
    ELSE WrongElements(b)

BuildEnd ==
    /\ ph = "build" /\ (Obs.read # "ok" \/ k = Len(Case.calls))
    /\ IF Obs.read # "ok"
       THEN /\ UNCHANGED <<rd, flat>>
            /\ Done("stopped or hung on a circuit", "")
       ELSE /\ rd' = [rd EXCEPT !.cfg = st.cfg, !.status = "ok"]
            /\ flat' = FlatBuilt(st, Obs.net.lut)
            /\ LET complaint == First(<<WrongBuilt(st), WrongConfig(st.cfg), Varying>>)
               IN /\ bad' = complaint
                  /\ ph' = IF complaint = "" /\ Saw("op") THEN "op" ELSE "end"
                  /\ UNCHANGED <<i, k, cols, st, note>>

-----------------------------------------------------------------------------
(* Operating point *)

NodeIds == IF Built THEN flat.ids ELSE Obs.net.nodes
Size2 == Cardinality(flat.nodes) + Len(Branches(flat.els))

\* the point in the columns of a vector, node n in the column after its id
Point(t, vec, ids) ==
    TLCEval([t |-> t,
             v |-> [n \in flat.nodes |-> vec[ids[n] + 1]],
             j |-> [b \in 1..Len(Branches(flat.els)) |-> vec[Cardinality(flat.nodes) + b]]])

KnownIds == \A n \in flat.nodes : n \in DOMAIN NodeIds
                /\ NodeIds[n] < Cardinality(flat.nodes)

\* a linear circuit is solved in the first iteration, and found to be in the next
OpPoint == Point(N0, Obs.op.x, NodeIds)
OpIterations ==
    IF Agrees(OpPoint, NoPoint(flat.els, flat.nodes), Config) THEN 1 ELSE 2

WrongOp ==
    IF Obs.op.status # "ok"
    THEN (IF IsLinear(flat.els) THEN "stopped in the operating point" ELSE "")
    ELSE IF Len(Obs.op.x) # Size2 THEN "size of the solution"
    ELSE IF ~ KnownIds THEN "node numbers"
    ELSE IF Obs.op.errors > 0
    THEN (IF IsLinear(flat.els) /\ ~ Wants("perhaps")    \* there is no one solution
             /\ ~ (Wants("overflow") /\ \E n \in 1..Len(Obs.op.x) : ~ NFinite(Obs.op.x[n]))
          THEN "linear circuit reported as failed"
          ELSE IF Obs.op.iters < Config.ITL1 /\ \A n \in 1..Len(Obs.op.x) : NFinite(Obs.op.x[n])
          THEN "gave up before the iteration limit" ELSE "")
    ELSE LET u == Unlawful(flat.els, flat.nodes, OpPoint, << >>, Exact(Config))
         IN IF u # "" THEN u
            ELSE IF Wants("iterations") /\ IsLinear(flat.els) /\ Obs.op.iters # OpIterations
            THEN "iterations to the operating point"
            ELSE ""

Op == /\ ph = "op"
      /\ UNCHANGED <<rd, flat>>
      /\ LET u == WrongOp
         IN IF u # "" THEN Done("operating point: " \o u, "")
            ELSE IF Obs.op.status # "ok" \/ Obs.op.errors > 0 THEN Done("", "reported")
            ELSE IF ~ Saw("tran") THEN Done("", "solved")
            ELSE Onto("tran")

-----------------------------------------------------------------------------
(* Waveform file *)

Rows == Obs.tran.rows
\* errors of the transient analysis, not those of its operating point
Errors == Obs.tran.errors - Obs.op.errors
RowTime(n) == Rows[n][1]

\* column of each node: by the header, where a node may go by an alias
Columns ==
    [v |-> [n \in flat.nodes |->
              SelectInSeq(Obs.tran.head, LAMBDA h : h[1] = "v" /\ h[2] \in DOMAIN NodeIds
                                                    /\ NodeIds[h[2]] = NodeIds[n])],
     j |-> [b \in 1..Len(Branches(flat.els)) |->
              SelectInSeq(Obs.tran.head, LAMBDA h : h = <<"i", ToString(b - 1)>>)]]
RowOf(row, cs) ==
    TLCEval([t |-> row[1],
             v |-> [m \in flat.nodes |-> row[cs.v[m]]],
             j |-> [b \in 1..Len(cs.j) |-> row[cs.j[b]]]])
RowPoint(n) == RowOf(Rows[n], cols)

\* (what isn't a number has none)
NineDecimals(x) == (Len(x) > 10 /\ Ch(x, Len(x) - 9) = ".") \/ ~ NFinite(x)

\* header and units, for a file of any circuit
WrongHead ==
    LET h == Obs.tran.head
        count == Cardinality(flat.nodes)
        shown == [n \in 1..count |-> h[n + 1][2]]
    IN IF Len(h) # 1 + Size2 THEN "number of columns"
       ELSE IF h[1] # <<"Time", "">> THEN "time column"
       ELSE IF \E n \in 1..count : h[n + 1][1] # "v" THEN "voltage columns"
       ELSE IF \E b \in 1..Len(Branches(flat.els)) : h[1 + count + b] # <<"i", ToString(b - 1)>>
       THEN "current columns"
       ELSE IF shown[1] # Ground THEN "ground is not the first node"
       ELSE IF {shown[n] : n \in 1..count} # flat.nodes THEN "columns of nodes go by other names"
       ELSE IF Len(Obs.tran.units) # Len(h) THEN "number of units"
       ELSE IF \E n \in 1..Len(h) :
                   Obs.tran.units[n] # (IF n = 1 THEN "s" ELSE IF h[n][1] = "v" THEN "V" ELSE "A")
       THEN "units"
       ELSE IF \E n \in 1..Len(Rows) : \E m \in 1..Len(Rows[n]) : ~ NineDecimals(Rows[n][m])
       THEN "values aren't written to nine decimals" ELSE ""

\* the columns can be found at all
NoColumns ==
    \/ \E n \in flat.nodes : n \notin DOMAIN NodeIds
    \/ LET c == TLCEval(Columns)
       IN \/ \E n \in flat.nodes : c.v[n] = 0
          \/ \E b \in 1..Len(c.j) : c.j[b] = 0

Complete == NSame(Obs.tran.end, IF NLt(Config.TSTOP, N0) THEN N0 ELSE Config.TSTOP)
LastTime == RowTime(Len(Rows))
AtTime(t, row) == NNear(t, row, "1e-9", "6e-10")

SC == INSTANCE StepControl WITH
        Plus   <- NAdd, Minus <- NSub, Scaled <- NMul, AtMost <- NLe, Less <- NLt,
        Zero   <- N0,
        Closes <- LAMBDA dt, left : NLe(left, NMul(dt, "1.000001"))

Everywhere == NLe(Config.TSTART, N0)     \* every solution is recorded

\* what a difference of two times as written may be off
TimeBlur == NAdd("1.3e-9", NMul("1e-14", NAbs(Config.TSTOP)))

WrongAxis ==
    IF ~ AtTime(N0, RowTime(1)) THEN "first row is not at time 0"
    ELSE IF \E n \in 1..(Len(Rows) - 1) :
               IF NLt(SC!MinStep(Config), "2e-9")    \* may not show in nine decimals
               THEN ~ NLe(RowTime(n), RowTime(n + 1))
               ELSE ~ NLt(RowTime(n), RowTime(n + 1)) THEN "time does not increase"
    ELSE IF \E n \in 2..Len(Rows) : ~ NLe(Config.TSTART, NAdd(RowTime(n), "6e-10"))
    THEN "row before the start time"
    ELSE IF \E n \in 2..Len(Rows) :
               ~ NLe(RowTime(n), NAdd(Config.TSTOP, "6e-10")) THEN "row after the stop time"
    ELSE IF Everywhere /\ Len(Rows) > 1
            /\ ~ NLe(RowTime(2), NAdd(NMul("1.000002", SC!FirstStep(Config)), TimeBlur))
    THEN "first step too long"
    ELSE IF \E most \in {NAdd(NMul("1.000002", SC!MaxStep(Config)), TimeBlur)} :
            \E n \in (IF Everywhere THEN 1 ELSE 2)..(Len(Rows) - 1) :
                   ~ NLe(NSub(RowTime(n + 1), RowTime(n)), most)
    THEN "step too long"
    ELSE IF Complete /\ NLt(N0, Config.TSTOP) /\ NLe(Config.TSTART, Config.TSTOP)
            /\ ~ AtTime(Config.TSTOP, LastTime)
    THEN "no row at the stop time"
    ELSE IF NLt(Config.TSTOP, Obs.tran.end) /\ NLt(N0, Obs.tran.end)
    THEN "ends after the stop time"
    ELSE ""

\* such numbers the arithmetic breaks down on
Extreme == \E e \in 1..Len(flat.els) : \E m \in 1..Len(flat.els[e].v) : NLe("1e290", NAbs(flat.els[e].v[m]))

\* a run says so when it failed, and only then
WrongEnd ==
    IF Errors = 0 /\ ~ Complete THEN "stopped early without an error message"
    ELSE IF Errors > 0 /\ Complete THEN "complete in spite of an error"
    ELSE IF Errors > 0 /\ NLe(Config.TSTART, Obs.tran.end) /\ ~ AtTime(Obs.tran.end, LastTime)
    THEN "end time is not that of the last row"
    ELSE IF Errors > 0 /\ IsLinear(flat.els) /\ Config.ITL4 >= 2 /\ ~ Wants("exact") /\ ~ Extreme
    THEN "gave up on a linear circuit"
    ELSE ""

\* the first row is the operating point, as written with nine decimals
WrongFirst ==
    LET x == RowOf(Rows[1], TLCEval(Columns))
        off(a, b) == ~ NNear(a, b, "1e-12", "6e-10")
    IN IF \/ \E n \in flat.nodes : off(x.v[n], OpPoint.v[n])
          \/ \E b \in 1..Len(x.j) : off(x.j[b], OpPoint.j[b])
       THEN "first row is not the operating point" ELSE ""

WrongFile ==
    IF Obs.tran.malformed # "" THEN Obs.tran.malformed
    ELSE IF \E n \in 1..Len(Rows) : Len(Rows[n]) # Len(Obs.tran.head) THEN "number of values in a row"
    ELSE IF Rows = << >> THEN "no rows"
    ELSE IF NoColumns THEN "columns missing" ELSE ""


(* When all steps of an uncut run are of one length, which divides the stop   *)
(* time, and the file has just the rows of such a run, then the time of each  *)
(* is known to the last digit: any cut would have made another row.           *)
EvenSteps ==
    LET h == SC!MaxStep(Config)
        n == Len(Rows) - 1
    IN /\ Everywhere /\ Complete /\ n > 0
       /\ NLt(N0, h) /\ NLe(Config.RMAX, Config.FS)
       /\ NNear(NMul(NInt(n), h), Config.TSTOP, "1e-7", N0)
EvenTimes ==    \* of all rows, or none
    IF ~ EvenSteps THEN << >>
    ELSE LET h == SC!MaxStep(Config)
         IN [n \in 1..Len(Rows) |-> IF n = 1 THEN N0 ELSE IF n = Len(Rows) THEN Config.TSTOP
                                    ELSE NMul(NInt(n - 1), h)]

Tran ==
    /\ ph = "tran"
    /\ UNCHANGED <<rd, flat, i, note>>
    /\ LET u == IF Obs.tran.status # "ok" THEN ""
                ELSE First(<<WrongFile,
                        IF WrongFile # "" \/ ~ Wants("head") THEN "" ELSE WrongHead,
                        IF WrongFile # "" \/ ~ Wants("axis") THEN "" ELSE First(<<WrongAxis, WrongEnd>>),
                        IF WrongFile # "" \/ ~ Wants("rows") THEN "" ELSE WrongFirst>>)
       IN /\ bad' = IF u # "" THEN "transient: " \o u
                    ELSE IF Obs.tran.status # "ok" /\ IsLinear(flat.els) THEN "transient: stopped" ELSE ""
          /\ ph' = IF bad' # "" \/ Obs.tran.status # "ok" THEN "end" ELSE "rows"
          /\ cols' = IF ph' = "rows" THEN TLCEval(Columns) ELSE << >>
          /\ st' = IF ph' = "rows" /\ Wants("rows") THEN EvenTimes ELSE << >>
    /\ k' = 1

-----------------------------------------------------------------------------
(* Each row from the one before *)

\* nine decimals say nothing about shorter steps
Short(n) == NLt(NSub(RowTime(n + 1), RowTime(n)), "1e-7")

\* row n, at its time if that is known
TimedRow(n) == IF st = << >> THEN RowPoint(n) ELSE [RowPoint(n) EXCEPT !.t = st[n]]
Blur == IF st = << >> THEN Written(Config)
        ELSE [Written(Config) EXCEPT !.dt = NMul("1e-12", Config.TSTOP)]

Row ==
    /\ ph = "rows"
    /\ UNCHANGED <<rd, flat, i, note, cols, st>>
    /\ IF k >= Len(Rows) \/ ~ Wants("rows")
       THEN ph' = "steps0" /\ UNCHANGED <<k, bad>>
       ELSE IF k = 1 /\ ~ Everywhere     \* not the row before
       THEN k' = 2 /\ UNCHANGED <<ph, bad>>
       ELSE LET u == IF st = << >> /\ Short(k) THEN ""
                     ELSE IF st # << >> /\ ~ AtTime(st[k + 1], RowTime(k + 1)) THEN "not at its time"
                     ELSE Unlawful(flat.els, flat.nodes, TimedRow(k + 1), TimedRow(k), Blur)
            IN /\ k' = k + 1
               /\ bad' = IF u = "" THEN "" ELSE "row at " \o RowTime(k + 1) \o ": " \o u
               /\ ph' = IF u = "" THEN "rows" ELSE "end"

-----------------------------------------------------------------------------
(* The step control, from the times of the rows alone.  st is the set of     *)
(* what it may be up to: its state s and bounds lo, hi on the iterations.    *)

StepStart == {[s |-> SC!Start(Config), lo |-> 0, hi |-> 0]}

RECURSIVE CutsTo(_, _, _)    \* the state of a try with step dt, or none
CutsTo(s, dt, n) ==
    IF NNear(s.dt, dt, "1e-6", "1.3e-9") THEN <<[s |-> s, n |-> n]>>
    ELSE IF s.st # "trying" \/ NLt(s.dt, dt) \/ n > 60 THEN << >>
    ELSE CutsTo(SC!CutBack(s, Config), dt, n + 1)

\* iterations of an uncut solution of a linear circuit
LinearIterations(n) ==
    IF Agrees(RowPoint(n), NoPoint(flat.els, flat.nodes), Config) THEN 1 ELSE 2
Clear(n) ==  \* not near enough to the tolerances for nine decimals to matter
    \A s \in {"0.99", "1.01"} :
        Agrees(RowPoint(n), NoPoint(flat.els, flat.nodes),
               [Config EXCEPT !.VNTOL = NMul(@, s), !.ABSTOL = NMul(@, s)])
        = Agrees(RowPoint(n), NoPoint(flat.els, flat.nodes), Config)

Lesser(a, b) == IF a <= b THEN a ELSE b
Greater(a, b) == IF a <= b THEN b ELSE a

\* what may be known after the step that led to row n
StepsAfter(q, n) ==
    LET chosen == TLCEval(SC!Choose(q.s, Config))
        dt == NSub(RowTime(n), q.s.t)
        cut == TLCEval(IF chosen.st = "trying" THEN CutsTo(chosen, dt, 0) ELSE << >>)
        c == cut[1]
        known == TLCEval(IsLinear(flat.els) /\ Config.ITL4 >= 2 /\ Clear(n))
        least == IF known THEN LinearIterations(n) ELSE 1      \* iterations of the last try
        most  == IF known THEN least ELSE Config.ITL4
        after(easy, lo, hi) ==
            IF hi < lo THEN {}
            ELSE {[s |-> SC!Accept(c.s, Config, easy),
                   lo |-> q.lo + c.n * Config.ITL4 + lo,
                   hi |-> q.hi + c.n * Config.ITL4 + hi]}
    IN IF cut = << >> \/ (known /\ c.n > 0) THEN {}
       ELSE after(TRUE, least, Lesser(most, Config.ITL3 - 1))
            \cup after(FALSE, Greater(least, Config.ITL3), most)

\* those that only differ in what went before, taken together
Merged(qs) ==
    {LET same == {q \in qs : q.s = s}
     IN [s |-> s, lo |-> Min({q.lo : q \in same}), hi |-> Max({q.hi : q \in same})]
     : s \in {q.s : q \in qs}}

StepsInit ==
    /\ ph = "steps0"
    /\ UNCHANGED <<rd, flat, i, note, cols, bad>>
    /\ IF Wants("steps") /\ Everywhere
       THEN ph' = "steps" /\ k' = 1 /\ st' = StepStart
       ELSE ph' = "exact0" /\ UNCHANGED <<k, st>>

WrongIterations ==
    LET n == Obs.tran.iters - Obs.op.iters
    IN IF Errors = 0 /\ ~ \E q \in st : q.lo <= n /\ n <= q.hi THEN "number of iterations"
       ELSE IF ~ \E q \in st : q.lo <= n THEN "number of iterations" ELSE ""

StepRow ==
    /\ ph = "steps"
    /\ UNCHANGED <<rd, flat, i, note, cols>>
    /\ IF k >= Len(Rows)
       THEN /\ ph' = (IF WrongIterations = "" THEN "exact0" ELSE "end")
            /\ bad' = WrongIterations
            /\ UNCHANGED <<k, st>>
       ELSE IF NLt(NSub(RowTime(k + 1), RowTime(k)), "1e-6")
       THEN ph' = "exact0" /\ UNCHANGED <<k, st, bad>>
       ELSE LET after == TLCEval(Merged(UNION {StepsAfter(q, k + 1) : q \in st}))
            IN /\ k' = k + 1
               /\ st' = after
               /\ bad' = IF after = {} THEN "step to the row at " \o RowTime(k + 1) ELSE ""
               /\ ph' = IF after = {} THEN "end" ELSE "steps"

-----------------------------------------------------------------------------
(* The whole analysis of a linear circuit, step by step and iteration by     *)
(* iteration: st = [s, prev, y, n, it]: step control, last solution, last    *)
(* iterate, iterations of this try and of the whole analysis.                *)

ExactInit ==
    /\ ph = "exact0"
    /\ UNCHANGED <<rd, flat, i, note, cols, bad>>
    /\ IF Wants("exact") /\ IsLinear(flat.els)
       THEN /\ ph' = "exact" /\ k' = 1
            /\ st' = [s |-> SC!Start(Config), prev |-> OpPoint,
                      y |-> NoPoint(flat.els, flat.nodes), n |-> 0, it |-> 0]
       ELSE ph' = "end" /\ UNCHANGED <<k, st>>

NearRow(x, n) ==
    LET big == NMul("1e-7", Largest(x))
        r == RowPoint(n)
    IN /\ AtTime(x.t, r.t)
       /\ \A m \in flat.nodes : NNear(x.v[m], r.v[m], "1e-7", NAdd("6e-10", big))
       /\ \A b \in 1..Len(x.j) : NNear(x.j[b], r.j[b], "1e-7", NAdd("6e-10", big))

ExactEnd ==    \* nothing more to do
    /\ UNCHANGED <<k, st>>
    /\ ph' = "end"
    /\ bad' = IF k < Len(Rows) THEN "a row too many"
              ELSE IF ~ NSame(Obs.tran.end, st.s.t) THEN "end time"
              ELSE IF (st.s.st = "failed") # (Errors > 0) THEN "outcome of the analysis"
              ELSE IF st.s.st = "done" /\ Obs.tran.iters # Obs.op.iters + st.it THEN "number of iterations"
              ELSE ""

\* with such steps, rounding errors decide whether iterations agree
Murky == st.s.st = "trying" /\ NLt(NMul("1e7", st.s.dt),
            MaxOf([m \in 1..Len(flat.els) |-> IF flat.els[m].kind = "C" THEN NAbs(flat.els[m].v[1]) ELSE N0]))

Exactly ==
    /\ ph = "exact"
    /\ UNCHANGED <<rd, flat, i, cols>>
    /\ note' = IF Murky THEN "steps too short to follow" ELSE note
    /\ CASE Murky -> ph' = "end" /\ UNCHANGED <<k, st, bad>>
         [] st.s.st = "ready" ->
              /\ st' = [st EXCEPT !.s = SC!Choose(@, Config), !.n = 0,
                                  !.y = NoPoint(flat.els, flat.nodes)]
              /\ UNCHANGED <<k, ph, bad>>
         [] st.s.st \in {"done", "failed"} -> ExactEnd
         [] OTHER ->
              LET t == NAdd(st.s.t, st.s.dt)
                  x == Solution(flat.els, flat.nodes, t, st.prev, st.s.dt)
                  n == st.n + 1
              IN IF Wild(x)
                 THEN st' = [st EXCEPT !.s = SC!Break(@)] /\ UNCHANGED <<k, ph, bad>>
                 ELSE IF Agrees(x, st.y, Config)
                 THEN LET s == SC!Accept(st.s, Config, SC!Easy(n, Config))
                          xt == [x EXCEPT !.t = s.t]
                          shown == NLe(Config.TSTART, s.t)
                      IN /\ st' = [st EXCEPT !.s = s, !.prev = xt, !.n = 0, !.it = @ + 1]
                         /\ k' = IF shown THEN k + 1 ELSE k
                         /\ bad' = IF ~ shown THEN ""
                                   ELSE IF k + 1 > Len(Rows) THEN "no row at " \o s.t
                                   ELSE IF ~ NearRow(xt, k + 1) THEN "row at " \o RowTime(k + 1) \o " instead of the solution at " \o s.t
                                   ELSE ""
                         /\ ph' = IF bad' = "" THEN "exact" ELSE "end"
                 ELSE /\ UNCHANGED <<k, ph, bad>>
                      /\ st' = IF n >= Config.ITL4
                               THEN [st EXCEPT !.s = SC!CutBack(@, Config), !.n = 0, !.y = x, !.it = @ + 1]
                               ELSE [st EXCEPT !.n = n, !.y = x, !.it = @ + 1]

-----------------------------------------------------------------------------
Next == BuildCall \/ BuildEnd \/ ReadLine \/ Judge \/ Op \/ Tran \/ Row \/ StepsInit \/ StepRow \/ ExactInit \/ Exactly
Spec == Init /\ [][Next]_vars

\* evaluated once in every state: writes the verdict when there is one
Verdict == ph = "end" => PrintT("VERDICT " \o ToJson([id |-> Case.id, bad |-> bad, note |-> note, rows |-> k]))
=============================================================================
