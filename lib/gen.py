"""Seeded generators of circuits and decks.  They only make inputs: what the
simulator has to do with them is said by the specification."""
import math
import random

SUFFIX = [("k", 1e3), ("m", 1e-3), ("u", 1e-6), ("n", 1e-9), ("p", 1e-12)]


class Rng(random.Random):
    def chance(self, p):
        return self.random() < p

    def logval(self, lo, hi):
        return math.exp(self.uniform(math.log(lo), math.log(hi)))

    def signed(self, x):
        return -x if self.chance(0.5) else x


def text(rng, x):
    """a number as somebody might write it; read back by the specification"""
    s = "%.3g" % x
    if "e" not in s:
        if rng.chance(0.2):
            m = [(c, f) for c, f in SUFFIX if 1 <= abs(x) / f < 1000]
            if m:
                c, f = rng.choice(m)
                s = ("%.4g" % (x / f)) + c
                if "e" in s:
                    s = "%.3g" % x
        elif rng.chance(0.1):
            s = "%.2e" % x
    if rng.chance(0.05) and s[-1] not in "kmunp" and "e" not in s:
        s += rng.choice(["V", "Ohm", "A", "Hz"])
    return s


LONG_TAILS = ["_of_the_second_stage_", "_%s_" % ("0" * 40), "x" * 8, "x" * 16, "x" * 32, "x" * 64, "x" * 256]


class Forest:
    """union-find over node names: no loops of voltage-defined branches"""
    def __init__(self):
        self.up = {}

    def find(self, a):
        while self.up.get(a, a) != a:
            a = self.up[a]
        return a

    def join(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return False
        self.up[a] = b
        return True


GROUNDS = ["0", "gnd", "GND"]


def node_names(rng, n, style=None):
    style = style or rng.choice(["num", "word", "mixed"] * 4 + ["long"])
    if style == "long":
        stem = rng.choice(["output_of_the_second_stage_", "n_" + "0" * rng.randint(6, 70), "A" * rng.choice([7, 15, 31, 63, 255])])
        names = [stem + str(i + 1) for i in range(n)]
        rng.shuffle(names)
        return names
    if style == "num":
        names = [str(i + 1) for i in range(n)]
        rng.shuffle(names)
        return names
    stems = ["in", "out", "a", "b", "A", "vdd", "x_1", "n", "mid", "Gnd", "00", "net"]
    names = []
    for i in range(n):
        s = rng.choice(stems) + ("" if rng.chance(0.2) else str(i))
        while s in names or s in GROUNDS:
            s = rng.choice(stems) + "_" + str(i) + rng.choice("abc")
        names.append(s)
    return names


def draw(rng, span):
    return rng.choice(span.of) if isinstance(span, Choice) else rng.logval(*span)


class Scale:
    """ranges of the quantities of a circuit"""
    def __init__(self, r=(0.5, 20), v=(0.1, 10), i=(0.01, 2), c=(0.02, 2), gain=(0.1, 5), f=(0.01, 0.5), t=(0.2, 4)):
        self.r, self.v, self.i, self.c, self.gain, self.f, self.t = r, v, i, c, gain, f, t


class Round:
    """the same, of few numbers, so that some come up again"""
    def __init__(self, sc):
        for k, (lo, hi) in vars(sc).items():
            x = float("%.3g" % math.sqrt(lo * hi))
            setattr(self, k, Choice(lo, hi, (x, x / 2, x * 2)))


class Choice(tuple):
    def __new__(cls, lo, hi, of):
        self = super().__new__(cls, (lo, hi))
        self.of = of
        return self


UNIT = Scale()
MILLI = Scale(r=(100, 1e5), v=(0.1, 15), i=(1e-5, 1e-2), c=(1e-9, 1e-5), f=(10, 1e5), t=(1e-6, 1e-3))
WIDE = Scale(r=(1, 1e6), v=(1e-3, 100), i=(1e-6, 1), c=(1e-12, 1e-3), f=(1, 1e6), t=(1e-6, 1))


def sin_text(rng, vo, va, f):
    if rng.chance(0.1):
        f = -f
    a = "%s%s%s" % (text(rng, vo), rng.choice([" ", "  "]) + text(rng, va) + " ", text(rng, f))
    return rng.choice(["SIN(%s)", "SIN( %s )", "SIN (%s)"]) % a


def pwl_text(rng, sc, n=None, rep=None, td=None, t0=None, vmax=None):
    n = n or rng.randint(1, 5)
    t = 0.0
    pts = []
    for k in range(n):
        if k == 0 and (rng.chance(0.4) if t0 is None else t0):
            t = 0.0
        else:
            t += draw(rng, sc.t)
        t = float(("%.3g" if n <= 8 else "%.6g") % t)
        if pts and t <= pts[-1][0]:
            t = float("%.3g" % (pts[-1][0] * 1.5 + 0.01 * sc.t[0]))
        v = rng.signed(draw(rng, sc.v))
        if rng.chance(0.15):
            v = rng.choice([0.0, pts[-1][1] if pts else 0.0])
        if vmax:
            v = max(-vmax, min(vmax, v))
        pts.append((t, v))
    body = ", ".join("%.6g %s" % (a, "") if False else "%.6g, %s" % (a, "%.3g" % b) for a, b in pts)
    s = rng.choice(["PWL(%s)", "PWL( %s )", "PWL (%s)"]) % body
    if rep if rep is not None else (n > 1 and rng.chance(0.5)):
        s += " r=%s" % rng.choice(["0", "0", "1", "0.5", "%.3g" % (t / 3), "%.3g" % (t * 2)])
    elif rng.chance(0.15):
        s += " r=%s" % rng.choice(["-1", "-0.5", "-2"])
    if td if td is not None else rng.chance(0.4):
        s += " td=%.3g" % draw(rng, sc.t)
    return s


def linear(rng, n, sc=UNIT, kinds="RCVIEGSP", extra=None, names=None, strong=False):
    """Cards of a linear circuit with one solution: a tree of resistors to
    ground, a forest of voltage-defined branches, and anything else."""
    names = names or node_names(rng, n)
    g = lambda: rng.choice(GROUNDS)
    pick = lambda: g() if rng.chance(0.3) else rng.choice(names)
    count = {}
    cards = []
    sc = Round(sc) if rng.chance(0.25) and not isinstance(sc, Round) else sc

    tail = rng.choice(LONG_TAILS) if rng.chance(0.03) else ""

    def name(k):
        count[k] = count.get(k, 0) + 1
        return "%s%s%d" % (k, tail, count[k])

    def add(k, nodes, val):
        cards.append("%s %s %s" % (name(k), " ".join(nodes), val))

    def pair():
        a, b = pick(), pick()
        return [a, b]

    def some(x):
        """sources may be turned off"""
        return rng.choice(["0", "0", "0.0", "-0", "0k"]) if rng.chance(0.05) else text(rng, x)

    for i, x in enumerate(names):
        y = g() if i == 0 or rng.chance(0.4) else rng.choice(names[:i])
        nodes = [x, y] if rng.chance(0.5) else [y, x]
        add("R", nodes, text(rng, draw(rng, sc.r)))
    forest = Forest()
    norm = lambda x: "0" if x in GROUNDS else x
    for _ in range(extra if extra is not None else rng.randint(1, 2 + n)):
        k = rng.choice(kinds)
        if k in "VEP" or (k == "S" and rng.chance(0.5)):
            a, b = pair()
            if norm(a) == norm(b) or not forest.join(norm(a), norm(b)):
                continue
            if k == "E":
                gain = rng.signed(draw(rng, sc.gain))
                if strong:
                    gain = rng.signed(rng.uniform(0.1, 0.8))
                add("E", [a, b] + pair(), some(gain))
            elif k == "P":
                add("V", [a, b], pwl_text(rng, sc))
            elif k == "S":
                add("V", [a, b], sin_text(rng, rng.signed(draw(rng, sc.v)), draw(rng, sc.v), draw(rng, sc.f)))
            else:
                add("V", [a, b], some(rng.signed(draw(rng, sc.v))))
        elif k == "S":
            add("I", pair(), sin_text(rng, rng.signed(draw(rng, sc.i)), draw(rng, sc.i), draw(rng, sc.f)))
        elif k == "I":
            add("I", pair(), some(rng.signed(draw(rng, sc.i))))
        elif k == "G":
            gm = rng.signed(draw(rng, sc.gain) / math.sqrt(sc.r[0] * sc.r[1]))
            if strong:
                gm = rng.signed(rng.uniform(0.01, 0.1) / sc.r[1])
            add("G", pair() + pair(), some(gm))
        elif k == "R":
            r = draw(rng, sc.r)
            add("R", pair(), text(rng, -r if rng.chance(0.05) and not strong and not isinstance(sc, Round) else r))
        elif k == "C":
            c = draw(rng, sc.c)
            add("C", pair(), text(rng, -c if rng.chance(0.05) and not isinstance(sc, Round) else c))
    rng.shuffle(cards)
    return cards


def diodes(rng, n, sc=None, count=None, caps=True, waves=True):
    """cards of a circuit with diodes, every node with a resistor to ground's tree"""
    sc = sc or Scale(r=(100, 1e4), v=(0.3, 12), i=(1e-4, 5e-3), c=(1e-6, 1e-3), f=(0.05, 1), t=(0.2, 4))
    names = node_names(rng, n)
    kinds = "RVI" + ("C" if caps else "") + ("SP" if waves else "")
    cards = linear(rng, n, sc, kinds=kinds, names=names, extra=rng.randint(1, n + 1))
    g = lambda: rng.choice(GROUNDS)
    for k in range(count or rng.randint(1, max(1, n))):
        a = rng.choice(names)
        b = g() if rng.chance(0.4) else rng.choice(names)
        nodes = [a, b] if rng.chance(0.6) else [b, a]
        cards.append("D%d %s" % (k + 1, " ".join(nodes)))
    rng.shuffle(cards)
    return cards


def diode_nets(rng):
    """diodes in series, across one another and in bridges; nodes that only diodes hold"""
    num = lambda lo, hi: text(rng, rng.logval(lo, hi))
    g = rng.choice(GROUNDS)
    names = node_names(rng, 14)
    cards, count = [], [0]

    def d(a, b):
        count[0] += 1
        cards.append("D%d %s %s" % (count[0], a, b))

    a, b = names[0], names[1]
    top = rng.choice([0.01, 0.3, 1, 5, 30, 300, 1000])
    cards.append(rng.choice(["V1 %s %s %s", "V1 %s %s %s", "I1 %s %s %s"]) % (a, g, text(rng, rng.signed(top))))
    if cards[0][0] == "I":
        cards[0] = "I1 %s %s %s" % (a, g, text(rng, rng.signed(top / 1000)))
        cards.append("R0 %s %s %s" % (a, g, num(100, 1e4)))
    cards.append("R1 %s %s %s" % (a, b, num(1, 1e5)))
    kind = rng.choice(["series", "parallel", "bridge", "anti", "ladder", "middle"])
    way = (lambda p, q: d(p, q)) if rng.chance(0.7) else (lambda p, q: d(q, p))
    if kind == "series":
        at = b
        for n in names[2:2 + rng.randint(0, 6)]:
            way(at, n)
            at = n
        way(at, g)
    elif kind == "parallel":
        for _ in range(rng.randint(2, 6)):
            way(b, g)
    elif kind == "bridge":
        c, e = names[2], names[3]
        d(b, c), d(g, c), d(e, b), d(e, g)
        cards.append("R2 %s %s %s" % (c, e, num(10, 1e5)))
    elif kind == "anti":
        c = names[2]
        d(b, c), d(g, c) if rng.chance(0.5) else d(c, g)
        d(b, g), d(g, b)
    elif kind == "ladder":
        at = b
        for n, x in enumerate(names[2:2 + rng.randint(1, 5)]):
            way(at, x) if n % 2 == 0 else cards.append("R1%d %s %s %s" % (n, at, x, num(10, 1e4)))
            way(x, g) if rng.chance(0.5) else cards.append("R2%d %s %s %s" % (n, x, g, num(10, 1e5)))
            at = x
    else:
        c = names[2]
        d(b, c), d(c, b) if rng.chance(0.5) else d(g, c)
        cards.append("V2 %s %s %s" % (names[3], g, num(0.1, 10)))
        cards.append("R3 %s %s %s" % (names[3], c, num(1e3, 1e6)))
    rng.shuffle(cards)
    return cards


def rectifier(rng):
    """sources that drive capacitors through diodes, hard to solve now and then"""
    names = node_names(rng, 5)
    a, b, c, d, e = names
    g = lambda: rng.choice(GROUNDS)
    num = lambda lo, hi: text(rng, rng.logval(lo, hi))
    cards = [rng.choice(["V1 %s %s SIN(%s %s %s)" % (a, g(), num(0.01, 1), num(2, 30), num(0.05, 1)),
                         "V1 %s %s PWL(0,0, %s,0, %s,%s, 9,%s)" % (a, g(), num(0.3, 0.9), num(0.91, 1.5), num(1, 20), num(1, 20))]),
             "R1 %s %s %s" % (a, b, num(1, 100)),
             "D1 %s %s" % ((b, c) if rng.chance(0.7) else (c, b)),
             "C1 %s %s %s" % (c, g(), num(1e-4, 1e-2)),
             "R2 %s %s %s" % (c, g(), num(10, 1e3))]
    if rng.chance(0.5):
        cards += ["D2 %s %s" % (c, d), "R3 %s %s %s" % (d, g(), num(10, 1e3)), "C2 %s %s %s" % (d, rng.choice([a, b, g()]), num(1e-4, 1e-2))]
    if rng.chance(0.3):
        cards += ["D3 %s %s" % (g(), b)]
    if rng.chance(0.3):
        cards += ["E1 %s %s %s %s %s" % (e, g(), c, g(), num(0.5, 3)), "R4 %s %s %s" % (e, c, num(10, 1e3))]
    rng.shuffle(cards)
    return cards


def control(rng, kind="op", tran=None, options=()):
    out = [".control"]
    for k, v in options:
        out.append("  option %s = %s" % (k, v))
    out.append("  op" if kind == "op" else "  tran " + " ".join(tran))
    out.append(".endc")
    return out


def deck(cards, ctl=()):
    return ["title"] + list(cards) + list(ctl)


# ---------------------------------------------------------------- hierarchies

LOCALS = ["a", "b", "in", "out", "x", "1", "2", "3", "10", "01", "001", "A", "Gnd", "00", "n_1", "mid", "vdd", "X1", "R1", "p", "q",
          "output_of_the_second_stage_p", "output_of_the_second_stage_n"]
PARAMS = {"R": ["r", "rv", "Rx", "r1", "a", "resistance1", "resistance2"], "C": ["c", "cval", "c1", "C"], "G": ["g", "gain", "k", "g1"]}


class Def:
    def __init__(self, name, ports, params):
        self.name, self.ports, self.params = name, ports, params   # params: [(name, type, default text)]
        self.body = []

    def block(self, rng):
        head = list(self.ports)
        sets = ["%s=%s" % (n, d) for n, _, d in self.params]
        if rng.chance(0.2) and sets:        # settings among the ports
            for s in sets:
                head.insert(rng.randint(0, len(head)), s)
            sets = []
        return [".subckt " + " ".join([self.name] + head + sets)] + ["  " + b for b in self.body] + [rng.choice([".ends", ".ends " + self.name])]


class Hierarchy:
    """Definitions and a toplevel that uses them.  solvable: with one solution."""
    def __init__(self, rng, ndefs=None, solvable=False, sc=UNIT, kinds=None, dynamic=False, topnodes=None, fanout=3, leaves=None, wide=False):
        self.rng, self.solvable, self.sc, self.dynamic = rng, solvable, sc, dynamic
        self.kinds = kinds or "RRCCVIEGSPD"
        self.fanout, self.leaves = fanout, leaves
        self.budget = 150 if wide else 60
        more = ["w%d" % k for k in range(20)] if wide else []
        n = ndefs if ndefs is not None else rng.randint(1, 4)
        names = rng.sample(["s", "sub", "amp", "load", "S", "x", "bridge", "R", "1", "rc_load", "X1", "a.b",
                            "amplifier_with_two_stages_a", "amplifier_with_two_stages_b", "s1", "su"] + ["s%d" % k for k in range(2, 24) if wide], n)
        self.defs = []
        for k in range(n):        # later ones may use earlier ones
            ports = rng.sample(LOCALS + more, rng.choice([3, 6, 9, 10, 12, 20]) if wide else rng.choice([0, 1, 2, 2, 3, 4]) if not solvable else rng.choice([1, 2, 2, 3]))
            params = []
            used = set()
            for _ in range(rng.choice([0, 0, 1, 2, 3] if not wide else [2, 5, 8, 12])):
                t = rng.choice("RCG")
                p = rng.choice(PARAMS[t])
                if p not in used:
                    used.add(p)
                    params.append((p, t, "{%s}" % rng.choice(PARAMS[t]) if rng.chance(0.12) else self.lit(t)))
            d = Def(names[k], ports, params)
            d.size = 0
            d.body = self.scope(d, self.defs[:k])
            self.defs.append(d)
        top = Def("", [], [])
        top.size = 0
        self.top = self.scope(top, self.defs, topnodes or rng.randint(1, 4), True)

    def lit(self, t):
        rng, sc = self.rng, self.sc
        if rng.chance(0.05) and not self.solvable:          # of any size
            return text(rng, rng.signed(rng.logval(1e-20, 1e18)))
        if rng.chance(0.08) and (t == "G" or not self.solvable):
            return rng.choice(["0", "0", "0.0", "-0", "0k", "-" + text(rng, draw(rng, sc.r))])
        if t == "R":
            return text(rng, draw(rng, sc.r))
        if t == "C":
            return text(rng, draw(rng, sc.c))
        return text(rng, rng.signed(rng.uniform(0.02, 0.6)) if self.solvable else rng.signed(draw(rng, sc.gain)))

    def value(self, d, t):
        """a number, or a parameter of the definition"""
        ps = [n for n, u, _ in d.params if u == t]
        if ps and self.rng.chance(0.6):
            return "{%s}" % self.rng.choice(ps)
        return self.lit(t)

    def scope(self, d, defs, nlocal=None, top=False):
        rng, sc = self.rng, self.sc
        local = [x for x in rng.sample(LOCALS, nlocal if nlocal is not None else rng.choice([0, 1, 1, 2, 3])) if x not in d.ports]
        if top and not local:
            local = ["n"]
        nodes = list(d.ports) + local
        lines = []
        count = {}
        tail = rng.choice(LONG_TAILS) if rng.chance(0.03) else ""

        def name(k):
            if rng.chance(0.04) and count.get(k):
                return "%s%s%d" % (k, tail, rng.randint(1, count[k]))      # devices may share a name
            count[k] = count.get(k, 0) + 1
            return k + tail + ("" if rng.chance(0.03) and count[k] == 1 else str(count[k]))

        def pick():
            return rng.choice(GROUNDS) if not nodes or rng.chance(0.25) else rng.choice(nodes)

        def fresh():
            n = "f%d" % len(nodes)
            nodes.append(n)
            return n

        if self.solvable:
            for x in local:
                lines.append("%s %s %s %s" % (name("R"), x, rng.choice(GROUNDS), self.value(d, "R")))
        ways = [k for k in self.kinds]
        for _ in range(self.leaves if self.leaves is not None else rng.randint(1, 4)):
            k = rng.choice(ways)
            if k in "VEP" or (k == "S" and rng.chance(0.5)):
                a, b = pick(), pick()
                if self.solvable:
                    a, b = fresh(), rng.choice(GROUNDS)
                    if rng.chance(0.5):
                        a, b = b, a
                    f = a if a not in GROUNDS else b
                    lines.append("%s %s %s %s" % (name("R"), f, pick(), self.value(d, "R")))
                if k == "E":
                    lines.append("%s %s %s %s %s %s" % (name("E"), a, b, pick(), pick(), self.value(d, "G")))
                elif k == "V":
                    lines.append("%s %s %s %s" % (name("V"), a, b, text(rng, rng.signed(draw(rng, sc.v)))))
                elif k == "P":
                    lines.append("%s %s %s %s" % (name("V"), a, b, pwl_text(rng, sc)))
                else:
                    lines.append("%s %s %s %s" % (name("V"), a, b, sin_text(rng, rng.signed(draw(rng, sc.v)), draw(rng, sc.v), draw(rng, sc.f))))
            elif k == "S":
                lines.append("%s %s %s %s" % (name("I"), pick(), pick(), sin_text(rng, rng.signed(draw(rng, sc.i)), draw(rng, sc.i), draw(rng, sc.f))))
            elif k == "I":
                lines.append("%s %s %s %s" % (name("I"), pick(), pick(), text(rng, rng.signed(draw(rng, sc.i)))))
            elif k == "G":
                v = text(rng, rng.signed(rng.uniform(0.01, 0.1) / sc.r[1])) if self.solvable else self.value(d, "G")
                lines.append("%s %s %s %s %s %s" % (name("G"), pick(), pick(), pick(), pick(), v))
            elif k == "D":
                lines.append("%s %s %s" % (name("D"), pick(), pick()))
            elif k == "C":
                lines.append("%s %s %s %s" % (name("C"), pick(), pick(), self.value(d, "C")))
            else:
                lines.append("%s %s %s %s" % (name("R"), pick(), pick(), self.value(d, "R")))
        d.size = len(lines)
        if defs:
            xs = set()
            for _ in range(rng.randint(1, self.fanout) if top or rng.chance(0.7) else 0):
                s = rng.choice(defs[-2:] if rng.chance(0.6) else defs)
                if d.size + s.size > self.budget:
                    continue
                x = "X" + rng.choice(["1", "2", "3", "a", "b", "1x", "sub", "_", ""])
                if x in xs:
                    continue
                xs.add(x)
                d.size += s.size
                sets = []
                for p, t, dflt in s.params:
                    # (a default may be a name of whoever has the instance)
                    known = dflt[0] != "{" or any(q == dflt[1:-1] and u == t for q, u, _ in d.params)
                    if rng.chance(0.55) or not known and rng.chance(1 if self.solvable else 0.95):
                        sets.append("%s=%s" % (p, self.value(d, t)))
                rng.shuffle(sets)
                conns = [pick() for _ in s.ports]
                lines.append(" ".join([x] + conns + [s.name] + sets))
        rng.shuffle(lines)
        return lines

    def blocks(self):
        """the parts of the deck, in an order of their own"""
        parts = [[l] for l in self.top] + [d.block(self.rng) for d in self.defs]
        if self.rng.chance(0.7):
            self.rng.shuffle(parts)
        return parts

    def lines(self):
        return [l for p in self.blocks() for l in p]


# ---------------------------------------------------------------- layout

REMARKS = ["* remark", "*", "*R9 1 0 1", "  * .control", "; R9 1 0 1", "  ;", ";.ends", "\t* x", "", "   ", "\t", "* .endl", ";.lib a b", "** .subckt s a", "*;", "\f", " \f* page"]
TITLES = ["title", "R9 1 0 1", ".control", ".subckt s a b", "", "* title", ".lib l.inc s1", ".ends", "V1 1 0 5", ".endc", "op", "X1 a b s", "; x", ".foo", "Zzz"]


def relaid(rng, lines, more=0.3):
    """the same deck, laid out in another way"""
    out = []
    for l in lines:
        while rng.chance(more):
            out.append(rng.choice(REMARKS))
        words = l.split(" ")
        l = rng.choice(["", "", " ", "\t", "    "])
        for n, w in enumerate([w for w in words if w]):
            l += (rng.choice([" ", " ", "  ", "\t", " \t ", "    ", " ", "\t", "\f", " \f"]) if n else "") + w
        l += rng.choice(["", "", "", " ", "\t", ";", " ; remark", ";remark", "; {x} = ; *", " ;R1 1 0 1", ";.endc", "\r"])
        if rng.chance(0.003):           # very long lines
            n = rng.choice([70, 90, 130, 260, 520, 1030, 2100])
            l = rng.choice([l + " ;" + "x" * n, l + " " * n, " " * n + l, l.replace(" ", " " * n, 1), l + " ; " + "R1 1 0 5 " * (n // 9)])
        out.append(l)
    while rng.chance(more):
        out.append(rng.choice(REMARKS))
    return out


# ---------------------------------------------------------------- slips

ODD_LETTERS = "éßΩµЖ²٣０ªⅣ日~|!"


def slip(rng, line):
    """the line with a slip of the pen"""
    if not line.strip():
        return line
    r = rng.random()
    blanks = [i for i, c in enumerate(line) if c == " "]
    i = rng.randrange(len(line))
    marks = "=(){},;*.-+0a1kmr:#_ \t" + rng.choice(ODD_LETTERS)
    if r < 0.25 and blanks:                     # two words run together
        i = rng.choice(blanks)
        return line[:i] + line[i + 1:]
    if r < 0.4:                                 # a word falls apart
        return line[:i] + " " + line[i:]
    if r < 0.6:
        return line[:i] + line[i + 1:]
    if r < 0.8:
        return line[:i] + rng.choice(marks) + line[i:]
    if r < 0.9:
        return line[:i] + rng.choice(marks) + line[i + 1:]
    if r < 0.94:
        return line[:max(1, i)]
    if r < 0.97:
        return line[:i] + line[i].swapcase() + line[i + 1:]
    w = line.split()
    k = rng.randrange(len(w))
    return " ".join(w[:k] + [w[k]] + w[k:])
