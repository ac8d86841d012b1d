"""The checks, one for each property."""
import json
import os
import re
import subprocess

import gen
import tsv
from gen import UNIT, MILLI, WIDE
from tsv import case, say

CHECKS = {}


def check(pid):
    def put(f):
        CHECKS[pid] = f
        return f
    return put


def op_case(cards, **kw):
    return case({"deck.cir": gen.deck(cards, gen.control(None, "op"))}, **kw)


# ---------------------------------------------------------------- C01

@check("C01")
def c01(chk):
    rng = chk.rng
    want = ["config", "circuit", "iterations"]
    small = []
    for _ in range(chk.pick(700, 6000)):
        sc = rng.choice([UNIT, UNIT, MILLI, WIDE])
        if rng.chance(0.4):
            z, u = 10.0 ** rng.randint(-6, 12), 10.0 ** rng.randint(-6, 6)
            sc = gen.Scale(r=(z, z * rng.choice([10, 1e3])), v=(u, 100 * u), i=(u / z / 10, u / z * 10))
        small.append(op_case(gen.linear(rng, rng.randint(1, 8), sc), want=want))
    chk.decks("small", small)
    large = [op_case(gen.linear(rng, n, rng.choice([UNIT, MILLI]), extra=n // 3), want=want)
             for n in chk.pick([30, 60, 120, 254, 255, 256, 300], [30, 60, 120, 200] + list(range(250, 262)) + [300, 400, 600])]
    chk.decks("large", large)
    # every small circuit, those without a solution or with many included
    worked = generated(chk, "CircuitGen", Most=3, Part=chk.pick(97, 11), Seed=chk.seed)
    chk.remark(**{"small circuits worked out": len(worked)})
    cases = []
    for how, most in [("one", chk.pick(1500, 9000)), ("none", chk.pick(300, 3000)), ("many", chk.pick(200, 2000))]:
        cs = [c for c in worked if c["how"] == how]
        chk.need("small circuits with %s solution" % how, len(cs), most // 2)
        for c in rng.sample(cs, min(most, len(cs))):
            cases.append(op_case(worked_cards(rng, c), want=["config", "circuit"] + (["iterations"] if how == "one" else ["perhaps"])))
    chk.decks("worked out", cases)


def worked_cards(rng, c):
    """the cards of one of CircuitGen's circuits"""
    at = [rng.choice(gen.GROUNDS)] + rng.sample(["1", "2", "a", "b", "B", "00"], 2)
    cards = ["%s%d %s %d" % (e["k"], n, " ".join(at[x] for x in e["n"]), e["v"]) for n, e in enumerate(c["els"])]
    rng.shuffle(cards)
    return cards


# ---------------------------------------------------------------- C02

@check("C02")
def c02(chk):
    rng = chk.rng
    want = ["config", "circuit"]
    cases = []
    for n in range(chk.pick(700, 8000)):
        over = []
        if rng.chance(0.25):
            over.append(("ITL1", rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 15, 100])))
        if rng.chance(0.25):
            over.append(("RELTOL", rng.choice([1e-2, 1e-3, 1e-6])))
        if rng.chance(0.25):
            over.append(("VNTOL", rng.choice([1e-3, 1e-4, 1e-7])))
        if rng.chance(0.15):
            over.append(("ABSTOL", rng.choice([1e-6, 1e-3, 1e-12])))
        cases.append(op_case(gen.diodes(rng, rng.randint(1, 7)), over=over, want=want))
    nets = [op_case(gen.diode_nets(rng), over=[("ITL1", rng.choice([20, 50, 500]))] if rng.chance(0.3) else [], want=want)
            for _ in range(chk.pick(600, 8000))]
    v = chk.decks("nets", nets)
    chk.need("nets of diodes solved", sum(1 for x in v.values() if x["note"] == "solved"), 20)
    chk.decks("real circuits", [real_case(rng, todo=["net", "op"], want=want) for _ in range(chk.pick(60, 600))])
    v = chk.decks("diodes", cases)
    cases = [built(calls_for(rng, special_diodes(rng, gen.diodes(rng, rng.randint(1, 4)))), want=["circuit"]) for _ in range(chk.pick(150, 1500))]
    chk.decks("diodes of all sorts", cases)
    chk.need("diode circuits solved", sum(1 for x in v.values() if x["note"] == "solved"), len(cases) // 4)
    chk.need("diode circuits reported as failed", sum(1 for x in v.values() if x["note"] == "reported"), 5)


# ---------------------------------------------------------------- transient

def seconds(x):
    return repr(float("%.6g" % x))


def tran_case(rng, cards, step, stop, start=None, options=(), **kw):
    t = [seconds(step), seconds(stop)] + ([seconds(start)] if start is not None else [])
    kw.setdefault("todo", ["net", "op", "tran"])
    return case({"deck.cir": gen.deck(cards, gen.control(rng, "tran", t, options))}, **kw)


SLOW = gen.Scale(r=(0.5, 20), v=(0.1, 10), i=(0.01, 2), c=(0.02, 2), f=(0.01, 0.3), t=(0.3, 4))


def times(rng):
    """step, stop"""
    step = rng.choice([0.1, 0.25, 0.3, 0.5, 1.0, 0.7])
    return step, step * rng.choice([1, 3.3, 5, 8, 10, 12.7, 20, rng.choice([0.03, 0.08, 0.3, 0.9, 2])])


def decade(rng, fast=None):
    """a scale of impedances and voltages of its own, and its unit of time"""
    z, u = 10.0 ** (rng.randint(-3, 6) if rng.chance(0.8) else rng.randint(-12, 12)), 10.0 ** rng.randint(-2, 3)
    f = fast or rng.choice([1e-9, 1e-6, 1e-6, 1e-3, 1e-3, 1.234567e3, 1.234567e6])
    by = lambda p, k: (p[0] * k, p[1] * k)
    return gen.Scale(r=by(SLOW.r, z), v=by(SLOW.v, u), i=by(SLOW.i, u / z), c=by(SLOW.c, f / z), f=by(SLOW.f, 1 / f), t=by(SLOW.t, f)), f


def scaled_cases(chk, n, want, kinds="RCCVIEGSSP", files=False):
    """circuits of any scale, by steps of any length"""
    rng = chk.rng
    cases = []
    for _ in range(n):
        sc, f = decade(rng)
        step = rng.choice([0.1, 0.25, 0.5, 1.0]) * f
        opts, over = [("RMAX", 1)], [("FS", 1.0)]
        stop = step * rng.randint(2, 12)
        if rng.chance(0.4):
            over, opts = [], []
            stop = step * rng.choice([1, 3.3, 5, 8, 10, 12.7])
        more = {}
        if files:
            over, more = [], {"cli": {"stale": rng.chance(0.5)}}
        if rng.chance(0.75):
            cards = gen.linear(rng, rng.randint(1, 6), sc, kinds=kinds, strong=True)
        else:
            sc = gen.Scale(r=(100, 1e4), v=(0.3, 12), i=(1e-4, 5e-3), c=(1e-6 * f, 1e-3 * f), f=(0.05 / f, 1 / f), t=(0.2 * f, 4 * f))
            cards = gen.diodes(rng, rng.randint(1, 4), sc)
        cases.append(tran_case(rng, cards, step, stop, options=opts, over=over, want=want, **more))
    return cases


def long_cases(chk, n, want, cards, kinds="RCCVIEGSSP"):
    """runs of thousands of steps, of which the last ones are recorded"""
    rng = chk.rng
    cases = []
    for _ in range(n):
        f = rng.choice([1e-6, 1e-3, 1.0, 1.0])
        step = rng.choice([0.1, 0.25, 0.5, 0.013]) * f
        rmax = rng.choice([0.5, 1, 1, 2, 5])
        steps = int(10 ** rng.uniform(2.5, 4.7))
        stop = step * rmax * steps
        start = max(stop - step * rmax * rng.uniform(1, 25), 0.4 * stop)
        by = lambda p, k: (p[0] * k, p[1] * k)
        sc = gen.Scale(r=SLOW.r, v=SLOW.v, i=SLOW.i, c=by(SLOW.c, f), f=by(SLOW.f, 1 / f), t=by(SLOW.t, f))
        cases.append(tran_case(rng, cards(sc, stop), step, stop, start, [("RMAX", rmax)], want=want))
    return cases


def long_linear(rng, kinds="RCCVIEGSSP", n=(1, 3), extra=(1, 3)):
    return lambda sc, stop: gen.linear(rng, rng.randint(*n), sc, kinds=kinds, strong=True, extra=rng.randint(*extra))


def doomed(rng):
    """circuits that can't be solved from some time close to the end on"""
    def cards(sc, stop):
        t = stop * (1 - 10 ** -rng.uniform(2.5, 4))
        return gen.linear(rng, rng.randint(1, 2), sc, kinds="CVIS", strong=True, extra=1) + [
            "V99 doom 0 PWL(0, 1, %s, 1, %s, 1e308)" % (repr(t), repr(t * 1.0000001)), "R99 doom 0 1n"]
    return cards


REAL = os.path.join(os.path.dirname(os.path.abspath(__file__)), "decks")


def jittered(rng, line):
    """a card with other numbers"""
    if re.match(r"\s*[RCGEVI]\w* ", line) and "PWL" not in line:
        def other(m):
            x = float(m.group(1)) * rng.uniform(0.6, 1.6)
            return m.group(0)[0] + "%.3g" % x if "e" not in "%.3g" % x else m.group(0)
        head = re.match(r"\s*\w+(\s+\w+){%d}(?=[\s])" % (4 if line.strip()[0] in "GE" else 2), line)
        if head:
            return head.group(0) + re.sub(r"[ (=]([0-9]+\.?[0-9]*)", other, line[head.end():])
    return line


def real_case(rng, steps=(15, 60), want=(), ctl=None, **kw):
    """the sort of deck the simulator comes with, of other sizes"""
    spi = sorted(f for f in os.listdir(REAL) if f.endswith(".spi")) + ["drum-machine/dm_trigger.spi", "drum-machine/kick_drum.spi"]
    main = rng.choice(spi)
    files = {main: open(os.path.join(REAL, main)).read().split("\n")[:-1]}
    if "/" in main:
        for f in os.listdir(os.path.join(REAL, "drum-machine")):
            if f.endswith("lib"):
                files["drum-machine/" + f] = open(os.path.join(REAL, "drum-machine", f)).read().split("\n")[:-1]
    every = rng.chance(0.8)
    for f in files:
        out = []
        for l in files[f]:
            m = re.match(r"\s*tran\s+(\S+)\s+(\S+)", l)
            if m:
                s = m.group(1).rstrip("s")
                step = float(s.rstrip("unm")) * {"u": 1e-6, "n": 1e-9, "m": 1e-3}.get(s[-1], 1.0) * rng.choice([0.5, 1, 1, 4, 20])
                n = rng.randint(*steps)
                l = "  tran %s %s" % (seconds(step), seconds(step * n))
                l = l if ctl is None else ctl
            elif "RMAX" in l:
                l = "*" + l
            elif every:
                l = jittered(rng, l)
            out.append(l)
        files[f] = out
    kw.setdefault("todo", ["net", "op", "tran"])
    return case(files, main=main, want=want, over=[("RMAX", 1.0), ("FS", 1.0)] if rng.chance(0.7) and "cli" not in kw else [], **kw)


@check("C03")
def c03(chk):
    rng = chk.rng
    want = ["config", "circuit", "axis", "rows"]
    v = chk.decks("real circuits", [real_case(rng, want=want + ["names", "head", "steps", "exact"]) for _ in range(chk.pick(40, 400))])
    chk.need("rows of real circuits", sum(x["rows"] for x in v.values()), 400)
    v = chk.decks("any scale", scaled_cases(chk, chk.pick(400, 5000), want + ["exact"]))
    chk.need("rows of fast circuits", sum(x["rows"] for x in v.values()), 1200)
    cases = []
    for n in range(chk.pick(300, 3000)):
        step, stop = times(rng)
        if rng.chance(0.6):
            cards = gen.linear(rng, rng.randint(1, 6), SLOW, kinds="RCCVIEGSSP", strong=True)
        else:
            cards = gen.diodes(rng, rng.randint(1, 4))
        cases.append(tran_case(rng, cards, step, stop, want=want,
                               options=[("RMAX", rng.choice([1, 0.5, 2]))] if rng.chance(0.5) else []))
    v = chk.decks("rows", cases)
    chk.need("rows compared with the row before", sum(x["rows"] for x in v.values()), 10 * len(cases) // 2)
    # steps that are cut back, and tried again from the same row
    cases = []
    for n in range(chk.pick(200, 2000)):
        step, stop = times(rng)
        over = [("ITL4", rng.choice([3, 4, 5, 6, 8])), ("RMIN", rng.choice([1e-2, 1e-4, 1e-6])), ("FT", rng.choice([0.25, 0.5, 0.8]))]
        cases.append(tran_case(rng, gen.rectifier(rng), step, stop, want=want, over=over))
    chk.decks("cut back", cases)
    v = chk.decks("many steps", long_cases(chk, chk.pick(60, 600), want, long_linear(rng, n=(1, 5), extra=(2, 5))))
    chk.need("rows late in long runs", sum(x["rows"] for x in v.values()), 300)
    chk.need("steps that were cut back", sum(c["cuts"] for c in cases), len(cases))


def stepped(c, unit=1 / 4096):
    """the deck and settings of one of StepGen's analyses, its times in these units"""
    p, sec = c["p"], lambda n: repr(n * unit)
    volts = {0: "0", 3: "3", 5: "-5", 7: "0.5", 9: "1e300"}
    points = ["0", volts[c["levels"][0]]]
    for k, l in enumerate(c["levels"][1:], 1):
        points += [sec(k * p["span"]), points[-1], sec(k * p["span"] + 1), volts[l]]
    cards = ["V1 1 0 PWL(" + ", ".join(points) + ")", "R1 1 0 1", "E1 2 0 1 0 1e10", "R2 2 0 1e12"]
    over = [(k, p[k][0] / p[k][1]) for k in ("FS", "FT", "RMIN", "RMAX")] + [(k, p[k]) for k in ("ITL3", "ITL4")]
    # where the current of E1 is small, its tolerance is negative
    over += [("VNTOL", 0.1)] + ([("RELTOL", 0.5), ("ABSTOL", -0.005)] if 7 in c["levels"] else [("ABSTOL", 0.1)])
    times = [sec(p["TSTEP"]), sec(p["TSTOP"])] + ([sec(p["start"])] if p["start"] else [])
    x = case({"deck.cir": gen.deck(cards, gen.control(None, "tran", times))}, over=over,
             todo=["net", "op", "tran"], want=["config", "axis", "rows", "exact"] + ([] if 7 in c["levels"] else ["steps"]))
    x.told, x.unit = c, unit
    return x


def big_stuck(chk):
    return dict(Cuts="<- CutsAll", Mins="<- MinsAll", Maxs="<- MaxsAll", Stops="{400, 768}") if chk.thorough else {}


def foretold(chk, most):
    """whole analyses worked out by TLC, done by the code"""
    big = dict(Firsts="<- FirstsAll", Cuts="<- CutsAll", Mins="<- MinsAll", Maxs="<- MaxsAll", Easies="{1, 2, 3}",
               Limits="{1, 2, 3, 50}", Stops="{256, 400, 768}", Starts="{0, 280}") if chk.thorough else {}
    cs = generated(chk, "StepGen", **big)
    few = chk.rng.sample(cs, most) if len(cs) > most else cs
    # levels that no number of iterations settles
    stuck = [c for c in generated(chk, "StepGen", Levels="{3, 5, 7}", Limits="{2, 5, 8}", Easies="{2, 6}", Spans="{200}", **big_stuck(chk)) if 7 in c["levels"]]
    chk.remark(**{"analyses worked out": len(cs) + len(stuck)})
    few += chk.rng.sample(stuck, most // 2) if len(stuck) > most // 2 else stuck
    # in units of a power of two, which changes nothing
    cases = [stepped(c, 2.0 ** -(12 + (chk.rng.choice([-25, -10, 10, 25, 45, 60]) if chk.rng.chance(0.3) else 0))) for c in few]
    v = chk.decks("foretold", cases)
    for c in cases:
        t, o = c.told, c.seen
        if v[c["id"]]["bad"] or "tran" not in o:
            continue
        errors = o["tran"]["errors"] - o["op"]["errors"]
        rows = [float(r[0]) for r in o["tran"]["rows"]]
        wrong = "" if o["tran"]["status"] == "ok" else "analysis stopped"
        if not wrong and (len(rows) != len(t["rows"]) or any(abs(a - b * c.unit) > 6e-10 for a, b in zip(rows, t["rows"]))):
            wrong = "rows at other times than foretold"
        elif not wrong and float(o["tran"]["end"]) != t["end"] * c.unit:
            wrong = "end time other than foretold"
        elif not wrong and (errors == 0) != t["done"]:
            wrong = "outcome other than foretold"
        elif not wrong and o["tran"]["iters"] - o["op"]["iters"] != t["its"]:
            wrong = "iterations other than foretold"
        if wrong:
            chk.violate("foretold", wrong, {"case": dict(c), "told": t, "verdict": v[c["id"]], "obs": o})
    chk.need("analyses foretold to fail", sum(1 for c in cases if not c.told["done"]), most // 10)
    chk.need("analyses foretold to complete", sum(1 for c in cases if c.told["done"]), most // 10)


def step_design(chk):
    """the step control by itself, for every outcome of every try"""
    cfg = open(os.path.join(tsv.SPEC, "StepControlMC.cfg")).read()
    if not chk.thorough:
        cfg = cfg.replace("Stops = {1, 7, 16, 37}", "Stops = {7, 37}").replace("Easies = {1, 2, 4}", "Easies = {1, 2}")
    chk.tlc.model_check("StepControlMC.tla", cfg)


@check("C04")
def c04(chk):
    step_design(chk)
    foretold(chk, chk.pick(600, 12000))
    rng = chk.rng
    want = ["config", "circuit", "axis", "rows", "steps", "exact"]
    cases = []
    for n in range(chk.pick(300, 3000)):
        step, stop = times(rng)
        r = rng.random()
        start = None
        if r < 0.3:
            start = stop * rng.choice([0, 0.1, 0.37, 0.5, 0.93, 1.0, 1.5])
        elif r < 0.35:
            start = step
        opts = [("RMAX", rng.choice([0.1, 0.3, 1, 2, 5, 7]))] if rng.chance(0.6) else []
        over = []
        if rng.chance(0.4):
            over.append(("FS", rng.choice([0.1, 0.25, 0.5, 1.0, 3.0])))
        if rng.chance(0.3):
            over.append(("ITL3", rng.choice([1, 2, 3, 6])))
        if rng.chance(0.8):
            cards = gen.linear(rng, rng.randint(1, 3), SLOW, kinds="CVISP", strong=True, extra=rng.randint(1, 3))
        else:
            cards = gen.diodes(rng, rng.randint(1, 2))
        cases.append(tran_case(rng, cards, step, stop, start, opts, over=over, want=want))
    chk.decks("axis", cases)
    chk.decks("any scale", scaled_cases(chk, chk.pick(250, 2500), want))
    v = chk.decks("many steps", long_cases(chk, chk.pick(60, 600), ["axis", "rows"], long_linear(rng)))
    chk.need("rows late in long runs", sum(x["rows"] for x in v.values()), 300)


@check("C05")
def c05(chk):
    step_design(chk)
    foretold(chk, chk.pick(600, 12000))
    rng = chk.rng
    want = ["config", "circuit", "axis", "rows", "steps", "exact"]
    cases = []
    for n in range(chk.pick(400, 4000)):
        step, stop = times(rng)
        start = stop * rng.choice([0.1, 0.5, 1.0]) if rng.chance(0.15) else None
        over = [("ITL4", rng.choice([1, 1, 2, 2, 3, 50])), ("ITL3", rng.choice([1, 2, 3, 6]))]
        if rng.chance(0.5):
            over.append(("FT", rng.choice([0.1, 0.25, 0.5, 0.8])))
        if rng.chance(0.95):
            over.append(("RMIN", rng.choice([1e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.25])))
        if rng.chance(0.3):
            over.append(("FS", rng.choice([0.1, 0.25, 1.0])))
        if rng.chance(0.4):
            over.append(("RELTOL", rng.choice([1e-1, 1e-2, 1e-3])))
        if rng.chance(0.4):
            over.append(("VNTOL", rng.choice([1e-1, 1e-2, 1e-4])))
        if rng.chance(0.3):
            over.append(("ABSTOL", rng.choice([1e-1, 1e-2, 1e-4])))
        if rng.chance(0.3):
            over.append(("RMAX", rng.choice([0.2, 1, 2, 5])))
        if rng.chance(0.7):
            cards = gen.linear(rng, rng.randint(1, 3), SLOW, kinds="CVISP", strong=True, extra=rng.randint(1, 3))
        else:
            cards = gen.diodes(rng, rng.randint(1, 2))
        cases.append(tran_case(rng, cards, step, stop, start, over=over, want=want))
    chk.decks("limits", cases)
    # limits that leave no way to get anywhere, and runs with nothing to do
    cases = []
    for n in range(chk.pick(60, 300)):
        step, stop = times(rng)
        cards = gen.diodes(rng, rng.randint(1, 2)) if rng.chance(0.3) else gen.linear(rng, rng.randint(1, 3), SLOW, kinds="CVISP", strong=True, extra=1)
        over, r = [], rng.random()
        if r < 0.25:
            over = [("FS", rng.choice([0, 0, -1, -0.25]))]
        elif r < 0.5:
            over = [("RMAX", rng.choice([0, 0, -1, -2]))]
        elif r < 0.75:
            step = rng.choice([0, 0, -0.5, -1])
        elif r < 0.9:
            stop = rng.choice([0, 0, -1])
        else:
            over, step = [("RMIN", rng.choice([0, 0.1])), ("ITL4", rng.choice([1, 2]))], 0
        cases.append(tran_case(rng, cards, step, stop, over=over, want=want))
    v = chk.decks("nowhere to go", cases)
    cases = long_cases(chk, chk.pick(40, 400), ["axis", "rows"], doomed(rng))
    chk.decks("given up late", cases)
    chk.need("runs given up shortly before their end", sum(1 for c in cases if c.seen.get("tran", {}).get("errors")), len(cases) // 3)
    cases = scaled_cases(chk, chk.pick(250, 2500), want)
    for c in cases:
        if chk.rng.chance(0.6):
            c["over"] += [("ITL4", rng.choice([1, 2, 3])), ("RMIN", rng.choice([1e-4, 1e-2, 0.1])), ("FT", rng.choice([0.25, 0.5]))]
    chk.decks("any scale", cases)


# ---------------------------------------------------------------- small programs

def run_lines(chk, name, text, timeout=120):
    """One run of a driver that reads one case file and writes one result a line."""
    exe = tsv.build_driver(name)
    d = chk.work.path("lines-" + chk.fresh_id(name))
    os.makedirs(d)
    with open(d + "/cases.txt", "w") as f:
        f.write(text)
    open(d + "/results.txt", "w").close()
    with open(d + "/log", "w") as log:
        p = subprocess.run([exe, d + "/cases.txt", d + "/results.txt", d], cwd=d, stdout=log,
                           stderr=subprocess.STDOUT, timeout=timeout)
    res = {}
    for line in open(d + "/results.txt"):
        if line.strip():
            o = json.loads(line)
            res[o["id"]] = o
    return res, p.returncode


def small_verdicts(chk, part, module, cases, key):
    """verdicts of a small conformance module"""
    v = chk.tlc.verdicts(module, tsv.CONF_CFG, cases)
    chk.traces += len(cases)
    chk.remark(**{part: len(cases)})
    for c in cases:
        x = v[c["id"]]
        if x["bad"]:
            chk.violate(part, x["bad"], {"case": {k: c[k] for k in key}, "observed": c, "verdict": x})
        n = part + ": " + (x["note"] or "compared")
        chk.notes[n] = chk.notes.get(n, 0) + 1
    if cases:
        chk.samples.append({"part": part, "case": {k: cases[0][k] for k in key}, "verdict": v[cases[0]["id"]]})
    say("%s: %d cases" % (part, len(cases)))
    return v


# ---------------------------------------------------------------- C06

JAVA = {"Infinity": "inf", "-Infinity": "-inf", "NaN": "NaN"}


def agree_deck(nodes, currents):
    """a deck with so many nodes (with ground) and branch currents"""
    cards = []
    for n in range(nodes - 1):
        cards.append("R%d %d 0 1" % (n + 1, n + 1))
    for j in range(currents):
        cards.append("E%d x%d 0 x%d 0 0.5" % (j, j, j) if False else "V%d v%d 0 1" % (j, j))
    return cards


def direct_agreements(chk, part, cases):
    """nv counts ground's entry, which is 0 in both vectors"""
    import tsv as t
    by = {}
    for c in cases:
        by.setdefault((c["nv"], len(c["x"]) - c["nv"]), []).append(c)
    text = []
    for (nv, nj), cs in sorted(by.items()):
        name = "d%d_%d.cir" % (nv, nj)
        # nv - 1 nodes, nj of them held by sources
        lines = ["title"] + ["R%d n%d 0 1" % (k, k) for k in range(nv - 1)]
        lines += ["V%d n%d 0 1" % (k, k) for k in range(min(nj, nv - 1))]
        lines += ["V%d 0 0 0" % k for k in range(nv - 1, nj)]
        text.append("FILE %s %d" % (name, len(lines)))
        text += lines
        text.append("DECK " + name)
        for c in cs:
            f = lambda v: " ".join(JAVA.get(q, q) for q in v)
            text.append("CASE %s %s %s ; %s" % (c["id"], " ".join(c["tol"]), f(c["x"]), f(c["y"])))
    try:
        res, rc = run_lines(chk, "agree", "\n".join(text) + "\n")
    except t.ToolError as e:
        say("the convergence check can't be called by itself here: " + str(e)[-300:])
        chk.remark(**{part + " (not callable)": len(cases)})
        return
    for c in cases:
        c["res"] = {"agree": "agree", "differ": "differ", "error": "error"}.get(res[c["id"]]["res"], "stop")
    small_verdicts(chk, part, "ConvergenceConf.tla", cases, ["nv", "tol", "x", "y", "res"])


@check("C06")
def c06(chk):
    rng = chk.rng
    cfg = open(os.path.join(tsv.SPEC, "ConvergenceGen.cfg")).read()
    if chk.thorough:
        cfg = cfg.replace("MaxNodes = 2", "MaxNodes = 3")
    cases = chk.tlc.printed("ConvergenceGen.tla", cfg, "CASE")
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    if len(cases) > chk.pick(4000, 60000):
        cases = rng.sample(cases, chk.pick(4000, 60000))
    for c in cases:
        c["nv"] += 1
        c["x"] = ["0"] + c["x"]
        c["y"] = ["0"] + c["y"]
    # longer vectors: one unknown that is out of line, at every place
    for _ in range(chk.pick(400, 4000)):
        nv, nj = (rng.randint(2, 9), rng.randint(0, 5)) if rng.chance(0.85) else (rng.randint(10, rng.choice([40, 150, 400])), rng.randint(0, 70))
        nj = min(nj, nv - 1) if rng.chance(0.9) else nj
        tol = [rng.choice([1e-1, 1e-3, 1e-4, 1e-4, 1e-6, 1e-9, 0.0, 2.0]), rng.choice([1e-2, 1e-6, 1e-6, 1e-9, 0.0, 10.0]),
               rng.choice([1e-3, 1e-9, 1e-9, 1e-12, 0.0, 10.0])]
        x, y = ["0"], ["0"]
        odd = rng.randrange(1, nv + nj) if rng.chance(0.8) else -1
        what = rng.choice(["far", "nan", "inf", "beyond", "beyond"])
        for n in range(1, nv + nj):
            v = rng.signed(rng.logval(1e-6, 1e3)) if rng.chance(0.8) else rng.signed(rng.logval(1e-15, 1e12))
            lim = abs(v) * tol[0] + (tol[1] if n < nv else tol[2])
            d = rng.choice([0, 0.5, 0.999, -0.999]) * lim
            if n == odd:
                d = {"far": 100, "beyond": rng.choice([1.001, -1.001])}.get(what, 0) * lim
            xs = repr(v)
            if n == odd and what in ("nan", "inf"):
                xs = "NaN" if what == "nan" else rng.choice(["Infinity", "-Infinity"])
            x.append(xs)
            y.append(repr(v + d))
        cases.append({"nv": nv, "tol": [repr(t) for t in tol], "x": x, "y": y})
    for c in cases:
        c["id"] = chk.fresh_id("a")
    direct_agreements(chk, "iterates", cases)
    # the same seen from outside: the iterations of linear circuits under tolerances
    # around the size of their unknowns, and of step by step simulations
    ops = []
    for _ in range(chk.pick(400, 4000)):
        cards = gen.linear(rng, rng.randint(1, 6), UNIT, kinds="RVVIEG", strong=True)
        over = [("RELTOL", rng.choice([1e-4, 0.1, 0.5, 0.9])), ("VNTOL", rng.choice([1e-6, 0.1, 1, 10, 100])),
                ("ABSTOL", rng.choice([1e-9, 0.01, 0.1, 1, 10]))]
        ops.append(op_case(cards, over=over, want=["iterations"]))
    for n in chk.pick([60, 120, 200, 300], [60, 90, 110, 130, 140, 200, 260, 300]):       # one unknown of many
        names = gen.node_names(rng, n, "num")
        cards = ["R%s %s 0 1" % (x, x) for x in names] + ["I1 0 %s 2" % names[rng.randrange(n)]]
        ops.append(op_case(cards, over=[("VNTOL", rng.choice([0.5, 3]))], want=["iterations"]))
    v = chk.decks("acceptance", ops)
    wild = []
    for _ in range(chk.pick(40, 400)):
        cards = gen.linear(rng, rng.randint(1, 3), UNIT, kinds="RI", extra=2)
        node = cards[0].split()[1]
        for c in cards:
            if c.split()[1] not in gen.GROUNDS:
                node = c.split()[1]
        extra = rng.choice(["V9 %s q1 1e200|R91 q1 0 1e-200", "I9 0 q1 1e250|R91 q1 0 1e100|R92 q1 %s 1",
                            "R90 q1 %s 1|V9 q1 0 1e308|V8 q2 q1 1e308|R91 q2 0 1"]) 
        extra = (extra % node).split("|")
        cards += extra
        rng.shuffle(cards)
        wild.append(op_case(cards, want=["overflow"]))
    chk.decks("overflow", wild)
    diodes = []
    for _ in range(chk.pick(150, 1500)):
        over = [("RELTOL", rng.choice([1e-6, 1e-4, 1e-2])), ("VNTOL", rng.choice([1e-9, 1e-6, 1e-4])),
                ("ABSTOL", rng.choice([1e-12, 1e-9, 1.0]))]
        diodes.append(op_case(gen.diodes(rng, rng.randint(1, 6)), over=over, want=["circuit"]))
    chk.decks("diodes", diodes)
    trans = []
    for _ in range(chk.pick(150, 1500)):
        step, stop = times(rng)
        over = [("ITL4", rng.choice([1, 2, 3])), ("RMIN", rng.choice([1e-4, 1e-2])), ("RELTOL", rng.choice([1e-4, 0.1])),
                ("VNTOL", rng.choice([1e-6, 0.1, 0.5])), ("ABSTOL", rng.choice([1e-9, 0.01, 0.5]))]
        cards = gen.linear(rng, rng.randint(1, 3), SLOW, kinds="CVISP", strong=True, extra=rng.randint(1, 3))
        trans.append(tran_case(rng, cards, step, stop, over=over, want=["axis", "exact"]))
    chk.decks("steps", trans)


# ---------------------------------------------------------------- C07

SESSION_DECKS = [
    ["V1 1 0 2", "R1 1 2 1", "R2 2 0 3", "C1 2 0 0.5"],
    ["I1 0 a 1m", "R1 a 0 10k", "D1 a 0", "D2 a b", "R2 b 0 2k"],
    ["V1 in 0 SIN(0 3 0.25)", "R1 in out 100", "D1 out 0", "C1 out 0 1m", "E1 x 0 out 0 2", "R2 x 0 1"],
    ["V1 1 0 PWL(0,0, 1,2, 3,-1) r=0", "G1 0 2 1 0 0.5", "R1 2 0 2", "V2 3 0 1", "R3 3 2 1", "I2 2 0 SIN(0 1 1)"],
    ["V1 1 0 1", "V2 1 0 2", "R1 1 0 1"],            # no solution
]


def session_obs(o, runs):
    def one(r):
        w = r.get("wave")
        return {"status": r["status"], "errors": r["errors"], "end": r["end"], "iters": r["iters"],
                "x": r["x"], "log": r["log"], "wave": w if w else "none"}
    return {"runs": [list(r) for r in runs], "got": [one(r) for r in o["session"]],
            "alone": [one(r) for r in o["alone"]],
            "before": json.dumps(o["before"]), "after": json.dumps(o["after"])}


def variant(rng, cards):
    """a circuit much like another one"""
    cards = [c for c in cards]
    for _ in range(rng.randint(1, 2)):
        k = rng.randrange(len(cards))
        w = cards[k].split(" ")
        r = rng.random()
        if r < 0.25 and len(cards) > 1:
            del cards[k]
            continue
        if r < 0.5:
            w[1], w[2] = w[2], w[1]
        elif r < 0.75 and w[0][0] in "RCIV" and len(w) == 4:
            w[3] = rng.choice(["1", "2", "0.3", "7"])
        elif w[0][0] in "RCIV" and len(w) == 4:
            w[0] = rng.choice("RCIV") + w[0][1:] + "x"
        elif w[0][0] == "D":
            w[0] = "R" + w[0][1:] + "x"
            w = w[:3] + ["3"]
        cards[k] = " ".join(w)
    return cards


def one_kind(rng):
    """a circuit of a few elements of one kind, or two"""
    kinds = rng.sample("RCVISPDEG", rng.choice([1, 1, 2]))
    at = rng.sample(["1", "2", "0"], 3)
    body = {"R": "2", "C": "0.5", "V": "3", "I": "1", "S": "SIN(1 2 0.3)", "P": "PWL(0,1, 1,2)", "D": "", "E": "1 0 2", "G": "1 0 2"}
    out = []
    for n in range(rng.randint(1, 3)):
        k = rng.choice(kinds)
        a, b = rng.sample(at, 2)
        out.append(("%s%d %s %s %s" % ({"S": rng.choice("VI"), "P": "V"}.get(k, k), n, a, b, body[k])).strip())
    return out


@check("C07")
def c07(chk):
    rng = chk.rng
    cfg = open(os.path.join(tsv.SPEC, "SessionMC.cfg")).read()
    plans = chk.tlc.printed("SessionMC.tla", cfg, "CASE")
    plans = sorted([p["runs"] for p in plans])
    if not chk.thorough:
        plans = [p for p in plans if len(p) < 3] + rng.sample([p for p in plans if len(p) == 3], 250)
    cases = []
    base = {"d%d.cir" % n: gen.deck(d, gen.control(rng, "tran", ["0.25", "1.5"])) for n, d in enumerate(SESSION_DECKS)}
    for p in plans:
        used = sorted({d for d, _ in p})
        cases.append(case({"d%d.cir" % d: base["d%d.cir" % d] for d in used}, main="d%d.cir" % used[0], todo=[],
                          decks=["d%d.cir" % d for d in used], session=[(used.index(d), k) for d, k in p]))
    for _ in range(chk.pick(250, 3000)):
        n = rng.randint(1, 4)
        files = {}
        kin, odd = rng.chance(0.4), []
        for d in range(n):
            step, stop = times(rng)
            stop = min(stop, 5 * step)
            if kin and d:
                cards = variant(rng, cards)
                odd.append("d%d.cir" % d)       # may have no one solution
            elif rng.chance(0.2):
                cards = one_kind(rng)
                odd.append("d%d.cir" % d)
            else:
                cards = gen.diodes(rng, rng.randint(1, 5)) if rng.chance(0.5) else gen.linear(rng, rng.randint(1, 6), SLOW)
            files["d%d.cir" % d] = gen.deck(cards, gen.control(rng, "tran", [seconds(step), seconds(stop)]))
        over = []
        if rng.chance(0.3):
            over = [("ITL1", rng.choice([1, 3, 10])), ("ITL4", rng.choice([1, 2, 4])), ("RMIN", 1e-2)]
        runs = [(rng.randrange(n), rng.choice(["op", "tran"])) for _ in range(rng.randint(2, 6))]
        cases.append(case(files, main="d0.cir", todo=[], decks=list(files), session=runs, over=over, alike=rng.chance(0.4), odd=odd))
    for c in cases:
        c["id"] = chk.fresh_id("s")
    exe = tsv.build_driver("decks")
    obs = tsv.run_driver(exe, chk.work, cases, tsv.case_input)
    sess = []
    for c in cases:
        o = obs[c["id"]]
        if "session" not in o:
            chk.violate("sessions", "session crashed, hung, or a deck was refused", {"case": dict(c), "obs": o})
            continue
        sess.append(dict(session_obs(o, c["session"]), id=c["id"], files=c["files"], decks=c["decks"], over=c["over"]))
    small_verdicts(chk, "sessions", "SessionConf.tla", sess, ["files", "decks", "over", "runs"])
    # what a deck gives when run alone is right as well
    alone = []
    for c in cases[-chk.pick(60, 600):]:
        d = c["decks"][-1]
        alone.append(case({d: c["files"][d]}, main=d, over=c["over"], todo=["net", "op", "tran"], want=["circuit", "axis", "rows"] + (["perhaps"] if d in c.get("odd", []) else [])))
    chk.decks("alone", alone)


# ---------------------------------------------------------------- C19

def built(calls, **kw):
    return case({}, calls=calls, **kw)


PLAIN = {"k": "e3", "m": "e-3", "u": "e-6", "n": "e-9", "p": "e-12"}


def plain(t):
    """a card's number without its suffix"""
    m = re.match(r"[-+]?[0-9.]+(e[-+]?[0-9]+)?", t)
    rest = t[m.end():]
    return m.group(0) + (PLAIN.get(rest[:1], "") if "e" not in m.group(0) else "")


def calls_for(rng, cards, named=True):
    """calls that build the circuit of some cards"""
    calls, refs, made = [], {}, []
    seen = []
    for c in cards:
        w = c.split()
        seen += w[1:5] if c[0] in "EG" else w[1:3]
    names = sorted(set(seen))
    rng.shuffle(names)
    free = list(range(1, len(names) + 1 + rng.choice([0, 0, 1, 3])))
    rng.shuffle(free)
    later = [] if rng.chance(0.5) else rng.sample(names, rng.randint(0, len(names)))
    if named:
        for n in names:
            if n not in later:
                calls.append(tsv.call("node", n))
        if rng.chance(0.3):
            calls.append(tsv.call("node", "spare"))
        refs = {n: n for n in names}
    else:
        refs = {n: "#0" if n in gen.GROUNDS else "#%d" % free.pop() for n in names}
    there = {c["name"] for c in calls}
    for c in cards:
        kind, rest = c[0], c.replace("(", " ( ").replace(")", " ) ").replace(",", " , ").split()
        n = 4 if kind in "EG" else 2
        nodes = rest[1:1 + n]
        rest = rest[1 + n:]
        if named:
            for x in nodes:
                if x not in there:
                    there.add(x)
                    calls.append(tsv.call("node", x))
                elif rng.chance(0.1):
                    calls.append(tsv.call(rng.choice(["node", "find"]), x))
        ref = [refs[x] for x in nodes]
        if kind == "D":
            v = rest[:2] if rest else ["1e-9", "27"]
        elif rest[0] == "SIN":
            kind += "SIN"
            v = [plain(x) for x in rest[1:] if x not in "()"]
        elif rest[0] == "PWL":
            kind = "VPWL"
            sets = dict(x.split("=") for x in rest if "=" in x)
            v = [plain(sets.get("td", "0")), plain(sets.get("r", "-1"))]
            v += [plain(x) for x in rest[1:] if x not in "(),," and "=" not in x]
        else:
            v = [plain(rest[0])]
        calls.append(tsv.call("el", c.split()[0], way=rng.choice(["add", "push"]), kind=kind, n=ref, v=v))
        if rng.chance(0.05):
            calls.append(tsv.call(rng.choice(["nodes", "sources"])))
    if named and rng.chance(0.3):
        for _ in range(rng.randint(1, 3)):
            of = rng.choice(names)
            calls.append(tsv.call("alias", "X%d.%s" % (rng.randint(1, 3), rng.choice([of, "a", "gnd", "p"])), of=of))
    if not named and rng.chance(0.6):          # numbers get names after all
        for x in rng.sample(names, rng.randint(1, len(names))):
            calls.append(tsv.call("alias", rng.choice(["%s", "%s", "X1.%s", "y_%s"]) % x, of=refs[x]))
            if rng.chance(0.3):
                calls.append(tsv.call(rng.choice(["node", "find"]), rng.choice([x, calls[-1]["name"]]) if len(calls) > len(cards) else x))
    return calls


@check("C19")
def c19(chk):
    """circuits built with the library's calls"""
    rng = chk.rng
    hists = []
    for names, kinds, most in [("Names1", '{"R", "V"}', 3), ("Names2", '{"D", "VPWL", "VSIN"}', 3), ("Names3", '{"V"}', 4)]:
        got = generated(chk, "BuilderGen", Names="<- " + names, Kinds=kinds, MaxCalls=most)
        chk.remark(**{"sequences of calls explored": len(got)})
        hists += rng.sample(got, min(len(got), chk.pick(900, 20000)))
    chk.decks("sequences", [built(h, todo=[]) for h in hists])
    # with an analysis
    cases = []
    for n in range(chk.pick(500, 5000)):
        named = rng.chance(0.7)
        if rng.chance(0.5):
            cards = gen.linear(rng, rng.randint(1, 8), rng.choice([UNIT, UNIT, MILLI]))
            want = ["circuit", "iterations"]
        else:
            cards = special_diodes(rng, gen.diodes(rng, rng.randint(1, 5)))
            want = ["circuit"]
        calls = calls_for(rng, cards, named)
        if rng.chance(0.5):
            calls.append(tsv.call("op"))
        if rng.chance(0.3):
            calls.insert(rng.randint(0, len(calls)), tsv.call("run"))
        cases.append(built(calls, want=want))
    v = chk.decks("operating points", cases)
    chk.need("built circuits solved", sum(1 for x in v.values() if x["note"] == "solved"), len(cases) // 2)
    cases = []
    for n in range(chk.pick(250, 2500)):
        step, stop = times(rng)
        if rng.chance(0.6):
            cards = gen.linear(rng, rng.randint(1, 6), SLOW, kinds="RCCVIEGSSP", strong=True)
        else:
            cards = special_diodes(rng, gen.diodes(rng, rng.randint(1, 4)))
        calls = calls_for(rng, cards)
        calls.insert(rng.randint(0, len(calls)), tsv.call("tran", v=[seconds(stop), seconds(step), "0" if rng.chance(0.7) else seconds(stop * rng.choice([0.33, 0.33, 1, 2]))]))
        for _ in range(rng.choice([0, 0, 1, 2])):
            calls.insert(rng.randint(0, len(calls)), tsv.call(rng.choice(["lut", "run"])))
        calls.append(tsv.call("lut"))
        if rng.chance(0.2):
            calls.append(tsv.call("run"))
        cases.append(built(calls, todo=["op", "tran"], want=["circuit", "head", "axis", "rows", "steps"]))
    v = chk.decks("transients", cases)
    chk.need("rows of built circuits compared with the row before", sum(x["rows"] for x in v.values()), 2 * len(cases))


def special_diodes(rng, cards):
    """diodes with saturation currents and temperatures of their own"""
    return [c + " %s %s" % ("%.3g" % rng.logval(1e-15, rng.choice([1e-5, 1e-5, 2e-2])), rng.choice(["27", "0", "-40", "85", "125.5", "%.3g" % rng.uniform(-50, 150), "%.3g" % rng.uniform(-200, 400)]))
            if c[0] == "D" and rng.chance(0.8) else c for c in cards]


# ---------------------------------------------------------------- C12

@check("C12")
def c12(chk):
    rng = chk.rng
    base = open(os.path.join(tsv.SPEC, "ValueGen.cfg")).read()
    texts = set()
    for alphabet, length in [("Characters", chk.pick(3, 5)), ("FewCharacters", chk.pick(5, 7)), ("Exponent", chk.pick(6, 8))]:
        cfg = base.replace("<- Characters", "<- " + alphabet).replace("MaxLength = 4", "MaxLength = %d" % length)
        texts |= {c["text"] for c in chk.tlc.printed("ValueGen.tla", cfg, "CASE")}
    texts = sorted(texts)
    if len(texts) > chk.pick(12000, 400000):
        texts = sorted(rng.sample(texts, chk.pick(12000, 400000)))
    enumerated = len(texts)
    seen = set(texts)
    digits = "0123456789"
    for _ in range(chk.pick(3000, 60000)):
        t = rng.choice(["", "", "+", "-"]) + "".join(rng.choice(digits) for _ in range(rng.choice([1, 1, 2, 3, 5, 9, 17, 20])))
        if rng.chance(0.6):
            t += "." + "".join(rng.choice(digits) for _ in range(rng.choice([0, 1, 2, 3, 6, 12, 18])))
        r = rng.random()
        if r < 0.3:
            t += "e" + rng.choice(["", "+", "-"]) + rng.choice(["", "", "", "0", "00"]) + str(rng.choice([0, 1, 2, 3, 5, 9, 10, 12, 15, 20, 25, 30, 100, 120, 300]))
        elif r < 0.7:
            t += rng.choice("kmunp")
        if rng.chance(0.5):
            t += rng.choice(["V", "Ohm", "s", "Hz", "F", "A", "kk", "meg", "x", "_", "mV", "us", "uF", "nF", "pF", "E3", "e", "G", "K", "M",
                             "1", ".5", "/2", "}", "{", "é", "Ω"])
        if rng.chance(0.03):
            t = rng.choice(["abc", "{x}", "-", "+", ".", ".5", "-.5", "+.5", "e5", "k", "1e", "1e+", "1ex", "--1", "1.e3", "1.k", "0x10",
                            "inf", "nan", "NaN", "Infinity", "1,5", "1_000", "٣"]) 
        if t not in seen:
            seen.add(t)
            texts.append(t)
    cases = [{"id": "v%d" % n, "text": t} for n, t in enumerate(texts) if "\n" not in t]
    res, rc = run_lines(chk, "values", "".join("%s %s\n" % (c["id"], c["text"]) for c in cases))
    got = []
    for c in cases:
        o = res.get(c["id"], {"res": "crash", "val": "0"})
        got.append(dict(c, res=o["res"], val=o["val"]))
    v = small_verdicts(chk, "texts", "ValueConf.tla", got, ["text", "res", "val"])
    chk.remark(enumerated=enumerated)
    chk.need("texts with a value", sum(1 for x in v.values() if x["note"] == "number"), 500)
    chk.need("texts without", sum(1 for x in v.values() if x["note"] == "no number"), 500)
    # in every place of a deck where a value may stand
    decks = []
    ok = [t for t in texts if t and " " not in t and t.isascii() and not set(t) & set(";*={}(),") and t[0] in "0123456789+-."]
    for _ in range(chk.pick(250, 3000)):
        t = [rng.choice(ok[enumerated // 4:]) for _ in range(4)]
        good = lambda: rng.choice(["1", "2.5", "3k", "40m", "0.5u", "7e-3", "+2", "11n", "6p", "1.25e2V"])
        u = [x if rng.chance(0.35) else good() for x in t]
        lines = rng.sample([
            "R1 1 0 " + u[0], "C1 1 0 " + u[1], "V1 2 0 " + u[2], "I1 1 2 " + u[3], "E1 3 0 1 2 " + u[0], "G1 1 3 2 0 " + u[1],
            "V3 4 0 SIN(%s %s %s)" % tuple(u[:3]), "I3 4 0 SIN(%s %s %s)" % tuple(u[1:]), "V5 5 0 PWL(0, 1, 3k, %s)" % u[1],
            "X1 1 2 s a=" + u[2]], rng.randint(1, 3))
        files = {"deck.cir": ["title"] + lines + [".subckt s p q a=%s b=%s" % (u[3], u[0]), "R1 p q {a}", "C2 p q {b}", ".ends"]}
        if rng.chance(0.4):
            files["deck.cir"] += [".control", "tran %s %s %s" % tuple(u[:3]) if rng.chance(0.5) else "option RELTOL = " + u[0], ".endc"]
        decks.append(case(files, todo=["net"]))
    chk.decks("cards", decks)


# ---------------------------------------------------------------- C17

@check("C17")
def c17(chk):
    rng = chk.rng
    cfg = open(os.path.join(tsv.SPEC, "PwlGen.cfg")).read()
    cards = sorted(c["card"] for c in chk.tlc.printed("PwlGen.tla", cfg, "CASE"))
    cards = rng.sample(cards, min(len(cards), chk.pick(700, 3000)))
    grid = [k / 4 for k in range(0, 33)] + [1e-9, 1 / 3, 0.1, 100, 1e6]
    cases = [{"card": c, "ts": [repr(float(t)) for t in grid]} for c in cards]
    for n in [0] * chk.pick(500, 6000) + chk.pick([12, 20, 40, 70, 110, 150, 210, 270], list(range(9, 300, 3))):
        sc = rng.choice([UNIT, MILLI, WIDE])
        if n or rng.chance(0.5):
            card = "V1 1 0 " + gen.pwl_text(rng, sc, n=n + rng.randint(0, 29) if n else rng.randint(1, 8))
            w = card.replace("(", " ").replace(")", " ").replace(",", " ").split()
            nums = []
            for x in w:
                try:
                    nums.append(float(x.split("=")[-1]))
                except ValueError:
                    pass
            nums = [x for x in nums if x >= 0]
            per = max(nums + [1e-6])
            ts = [0.0] + nums
            td = [float(x.split("=")[1]) for x in w if x.startswith("td=")] or [0.0]
            ts += [td[0] + x for x in nums] + [td[0] - 1e-3 * per, td[0] + 1e-9 * per]
            ts += [rng.uniform(0, 4 * per) for _ in range(10)] + [td[0] + k * per for k in (1, 2, 3, 10, 1000, 1e5)]
            ts += [td[0] + rng.uniform(0.9, 1.1) * k * per for k in (30, 300, 3e3, 3e4)]
            ts = [t for t in ts if t >= 0]
            ts = rng.sample(ts, 120) if len(ts) > 120 else ts
        else:
            f = gen.draw(rng, sc.f)
            card = rng.choice("VI") + "1 1 0 " + gen.sin_text(rng, rng.signed(gen.draw(rng, sc.v)) if rng.chance(0.9) else 0,
                                                              rng.signed(gen.draw(rng, sc.v)) if rng.chance(0.95) else 0,
                                                              (rng.signed(f) if rng.chance(0.3) else f) if rng.chance(0.95) else 0)
            ts = [0.0] + [rng.uniform(0, 3 / f) for _ in range(6)] + [k / (4 * f) for k in range(1, 9)] + [rng.uniform(0.9, 1.1) * n / f for n in (30, 300, 3e3, 3e4, 1e6)]
        cases.append({"card": card, "ts": [repr(float(t)) for t in ts]})
    # sources alike but for one number, one after the other
    for _ in range(chk.pick(40, 400)):
        few = rng.sample([0.3, 0.5, 1, 2, 4, 10], 3)
        ts = [repr(float(t)) for t in rng.sample([0, 0.1, 0.125, 0.3, 0.5, 1, 1.7, 2, 3, 5, 9], rng.choice([1, 1, 5]))]
        for _ in range(4):
            a, b, c = [rng.choice(few) for _ in range(3)]
            card = rng.choice(["V1 1 0 SIN(%g %g %g)" % (a, b, c), "I1 1 0 SIN(%g %g %g)" % (a, b, c),
                               "V1 1 0 PWL(0, %g, %g, %g) r=0" % (a, b, c), "V1 1 0 PWL(%g, %g, 20, %g) td=%g" % (a, b, c, rng.choice(few))])
            cases.append({"card": card, "ts": ts})
    text = []
    for c in cases:
        c["id"] = chk.fresh_id("w")
        text.append("CASE %s %d %s %s\n" % (c["id"], len(c["ts"]), " ".join(c["ts"]), c["card"]))
    res, rc = run_lines(chk, "waves", "".join(text))
    for c in cases:
        o = res.get(c["id"], {"status": "crash", "ys": []})
        c["status"], c["ys"] = o["status"], o["ys"]
    v = small_verdicts(chk, "waveforms", "SourceConf.tla", cases, ["card", "ts", "ys", "status"])
    chk.need("waveforms compared", sum(1 for x in v.values() if x["note"] == "ok"), len(cases) * 9 // 10)
    # carried over from decks, and followed in simulations
    decks = []
    for _ in range(chk.pick(150, 1500)):
        lines = []
        for k in range(rng.randint(1, 4)):
            kind = rng.choice("VVI")
            nodes = "%s %s" % tuple(rng.sample(["1", "2", "3", "0", "x"], 2))
            if kind == "V" and rng.chance(0.5):
                body = gen.pwl_text(rng, rng.choice([UNIT, MILLI, WIDE]))
            else:
                body = gen.sin_text(rng, rng.signed(rng.logval(1e-3, 20)), rng.signed(rng.logval(1e-3, 20)), rng.logval(0.1, 1e6))
            lines.append("%s%d %s %s" % (kind, k, nodes, body))
        if rng.chance(0.3):
            lines = [".subckt s 1 2 3 x"] + lines + [".ends", "X1 a b c d s", "X2 d c b a s"]
        decks.append(case({"deck.cir": ["title"] + lines}, todo=["net"]))
    chk.decks("cards", decks)
    trans = []
    for _ in range(chk.pick(150, 1500)):
        step, stop = times(rng)
        cards = gen.linear(rng, rng.randint(1, 4), rng.choice([SLOW, gen.Round(SLOW)]), kinds="SPSPR", strong=True, extra=rng.randint(2, 5))
        trans.append(tran_case(rng, cards, step, stop, options=[("RMAX", "1")], want=["axis", "rows"]))
    chk.decks("rows", trans)
    chk.decks("any scale", scaled_cases(chk, chk.pick(150, 1500), ["axis", "rows", "exact"], kinds="SPSPR"))
    chk.decks("many cycles", long_cases(chk, chk.pick(60, 600), ["axis", "rows"], long_linear(rng, "SPSPR", extra=(2, 5))))


# ---------------------------------------------------------------- C08

@check("C08")
def c08(chk):
    rng = chk.rng
    cases = []
    for n in range(chk.pick(90, 900)):
        h = gen.Hierarchy(rng, ndefs=rng.randint(1, 5), solvable=True, sc=SLOW, kinds="RRCCVIESPG")
        lines = h.lines()
        step, stop = times(rng)
        stop = min(stop, 6 * step)
        lines += gen.control(rng, "tran", [seconds(step), seconds(stop)])
        name = rng.choice(["deck.cir", "sub/deck.cir", "d/e/f.spi"])
        c = case({name: gen.TITLES[:1] + lines}, main=name, todo=["net", "op", "tran"],
                 want=["config", "circuit", "names", "head", "axis", "rows", "cli", "again"])
        c["decks"] = [name] * chk.pick(2, 4)
        c["cli"] = {"runs": chk.pick(3, 8)}
        cases.append(c)
    for _ in range(chk.pick(20, 200)):
        c = real_case(rng, (3, 25), ["config", "circuit", "names", "head", "axis", "rows", "cli", "again"], cli={"runs": chk.pick(3, 8)})
        c["decks"] = [c["main"]] * 2
        cases.append(c)
    built_cases = []
    for _ in range(chk.pick(80, 800)):
        cards = gen.linear(rng, rng.randint(1, 5), SLOW, kinds="RCCVIEGSSP", strong=True)
        calls = calls_for(rng, cards)
        nodes = [c["name"] for c in calls if c["f"] == "node"]
        for _ in range(rng.randint(0, 5)):      # names of all sorts, some no better than others
            at = rng.choice([n for n, c in enumerate(calls) if c["f"] in ("node", "el")]) + 1
            seen = [c["name"] for c in calls[:at] if c["f"] == "node"]
            of = rng.choice(seen) if seen else None
            name = rng.choice(["n%d", "X1.p%d", "X1.X1.a%d", "%d", "M%d"]) % rng.randint(1, 99)
            if of and name not in nodes + gen.GROUNDS:
                nodes.append(name)
                calls.insert(at, tsv.call("alias", name, of=of))
        calls.append(tsv.call("tran", v=["2", "0.5", "0"]))
        calls.append(tsv.call("lut"))
        built_cases.append(built(calls, todo=["op", "tran"], want=["circuit", "again", "axis", "rows"], repeat=chk.pick(4, 8)))
    chk.decks("built repeatedly", built_cases)
    v = chk.decks("repeated", cases)
    chk.need("decks simulated repeatedly", sum(1 for x in v.values() if x["rows"] > 2), len(cases) // 2)


# ---------------------------------------------------------------- C09, C10, C11

def hier_cases(chk, n, want, wild=True, **kw):
    rng = chk.rng
    cases = []
    for k in range(n):
        h = gen.Hierarchy(rng, sc=rng.choice([UNIT, MILLI]), **kw)
        cases.append(case({"deck.cir": ["title"] + h.lines()}, todo=["net"], want=want))
    return cases


def hier_sims(chk, n, want, **kw):
    rng = chk.rng
    cases = []
    for k in range(n):
        sc = rng.choice([SLOW, SLOW, MILLI])
        h = gen.Hierarchy(rng, solvable=True, sc=sc, kinds=rng.choice(["RRCCVIESPG", "RRVI", "RCVSE", "RRIG"]), **kw)
        if sc is SLOW and rng.chance(0.6):
            step, stop = times(rng)
            ctl = gen.control(rng, "tran", [seconds(step), seconds(min(stop, 5 * step))])
        else:
            ctl = gen.control(rng, "op")
        cases.append(case({"deck.cir": ["title"] + h.lines() + ctl}, todo=["net", "op"] + (["tran"] if "tran" in ctl[1] else []), want=want))
    return cases


def chain(rng, depth):
    """definitions that use one another, many levels deep"""
    blocks, params = [], []
    for k in range(depth):
        p = rng.choice(["r", "r", "r", "rv", "R%d" % k])
        ports = rng.choice([["a", "b"], ["b", "a"], ["a", "b", "c"], ["p", "q"]])
        body = ["R1 %s %s %s" % (ports[0], rng.choice(["m", "n", "0"]), rng.choice(["{%s}" % p, "%d" % (k + 1)]))]
        if k:
            conns = [rng.choice(ports + ["m", "n", "m"]) for _ in blocks[-1][1]]
            sets = rng.choice(["", " %s={%s}" % (params[-1], p), " %s={%s}" % (params[-1], p), " %s=%d" % (params[-1], 10 + k)])
            body.append("%s %s s%d%s" % (rng.choice(["X1", "X", "Xa"]), " ".join(conns), k - 1, sets))
        if rng.chance(0.3):
            body.append("R2 m %s 1" % ports[-1])
        rng.shuffle(body)
        blocks.append(([".subckt s%d %s %s=%d" % (k, " ".join(ports), p, 100 + k)] + body + [".ends"], ports))
        params.append(p)
    parts = [b for b, _ in blocks] + [["V1 in 0 1"], ["R1 in out 1"], ["R2 out 0 1"],
                                      ["X1 %s s%d" % (" ".join(rng.choice(["in", "out", "0"]) for _ in blocks[-1][1]), depth - 1)]]
    rng.shuffle(parts)
    return [l for p in parts for l in p]


def chains(chk, want):
    return [case({"deck.cir": ["title"] + chain(chk.rng, n)}, todo=["net"], want=want)
            for n in chk.pick([3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 32, 33, 40], list(range(3, 70)))]


def spoiled(rng, lines):
    """one thing about a hierarchy changed"""
    lines = list(lines)
    n = rng.randrange(len(lines))
    w = lines[n].split()
    r = rng.random()
    if w[0][:1] in "X." and rng.chance(0.15):      # a setting for somebody else
        insts = sorted({l.split()[0] for l in lines if l[:1] == "X"})
        sets = sorted({x.split("=")[0] for l in lines for x in l.split() if "=" in x})
        w.append("%s.%s=%s" % (rng.choice(insts or ["X1"]), rng.choice(sets or ["r"]), rng.choice(["5", "0.25", "2k"])))
    elif r < 0.2 and len(w) > 1:
        del w[rng.randrange(len(w))]
    elif r < 0.4:
        w.insert(rng.randint(1, len(w)), rng.choice(["a", "0", "1", "x", "r=1", "{r}", "gnd"]))
    elif r < 0.6 and len(w) > 1:
        k = rng.randrange(1, len(w))
        w[k] = rng.choice(["a", "0", "zz", "{zz}", "{r}", "r={zz}", "r={r}", "c={c}", "{a}", "a={a}", "1k", "bad-node", "s", "amp"])
    elif r < 0.7:
        return lines[:n] + lines[n + 1:]
    elif r < 0.8:
        return lines + [lines[n].strip()]
    elif r < 0.9:
        m = rng.randrange(len(lines))
        lines[n], lines[m] = lines[m], lines[n]
        return lines
    else:
        k = rng.randrange(len(w))
        w[k] = w[k].swapcase() if k else w[k]
    lines[n] = " ".join(w)
    return lines


def spoiled_cases(chk, n):
    rng = chk.rng
    cases = []
    for _ in range(n):
        h = gen.Hierarchy(rng, sc=UNIT)
        lines = h.lines()
        for _ in range(rng.choice([1, 1, 2])):
            lines = spoiled(rng, lines) or lines
        cases.append(case({"deck.cir": ["title"] + lines}, todo=["net"], want=["config", "circuit", "names"]))
    return cases


def slipped_cases(chk, n, share=0.7, **kw):
    """a slip of the pen in decks that are fine; share: how many of them anywhere, not in the control block"""
    rng = chk.rng
    cases = []
    kw.setdefault("want", ["config", "circuit", "names"])
    kw.setdefault("todo", ["net"])
    for _ in range(n):
        h = gen.Hierarchy(rng, solvable="cli" in kw, sc=SLOW if "cli" in kw else UNIT)
        opts = [x for x in [("RELTOL", "1m"), ("RMAX", "2"), ("ABSTOL", "1e-6")] if rng.chance(0.4)]
        ctl = gen.control(rng, "tran", ["0.5", "2"], opts)
        lines = h.lines()
        at = rng.choice([0, len(lines)])
        k = rng.randrange(len(lines) + len(ctl)) if rng.chance(share) else at + rng.randrange(len(ctl))
        lines[at:at] = ctl
        lines[k] = gen.slip(rng, lines[k])
        cases.append(dressed(rng, case({"deck.cir": ["title"] + lines}, **kw)))
    return cases


def worked_hierarchies(chk, what, most, want):
    """small hierarchies, the meaning of which TLC has looked at from several sides"""
    cs = []
    if what == "params":
        cs = generated(chk, "HierGen", Pick=chk.pick(37, 5), Seed=chk.seed)
    else:
        for k in range(1, 7):
            cs += generated(chk, "HierGen", What='"nodes"', Names="<- Names%d" % k, Pick=chk.pick(151, 23), Seed=chk.seed)
    chk.remark(**{"small hierarchies worked out": len(cs)})
    few = chk.rng.sample(cs, most) if len(cs) > most else cs
    chk.decks("small hierarchies", [case({"deck.cir": ["title"] + c["lines"]}, todo=["net"], want=want) for c in few])


@check("C09")
def c09(chk):
    worked_hierarchies(chk, "nodes", chk.pick(700, 9000), ["circuit"])
    v = chk.decks("expanded", hier_cases(chk, chk.pick(700, 6000), ["circuit"]))
    chk.need("hierarchies expanded", sum(1 for x in v.values() if x["note"] == ""), 150)
    chk.decks("deep", hier_cases(chk, chk.pick(60, 600), ["circuit"], ndefs=6, topnodes=3))
    chk.decks("wide", hier_cases(chk, chk.pick(25, 300), ["circuit"], ndefs=chk.rng.randint(4, 18), topnodes=6, fanout=8, wide=True))
    chk.decks("chains", chains(chk, ["circuit"]))
    v = chk.decks("simulated", hier_sims(chk, chk.pick(250, 2500), ["circuit", "axis", "rows"]))
    chk.need("rows of hierarchies", sum(x["rows"] for x in v.values()), 100)
    # whatever the deck's file is called
    cases = []
    for _ in range(chk.pick(40, 300)):
        h = gen.Hierarchy(chk.rng, solvable=True, sc=SLOW, kinds="RRCCVIESPG")
        name = chk.rng.choice([d.name for d in h.defs] + ["a", "gnd", "0", "tran"])
        cases.append(case({name: ["title"] + h.lines() + gen.control(chk.rng, "tran", ["0.5", "1"])}, main=name, todo=["net", "op", "tran"],
                          want=["circuit", "cli"], cli={}))
    chk.decks("by the program", cases)
    chk.decks("spoiled", spoiled_cases(chk, chk.pick(150, 2000)))


@check("C10")
def c10(chk):
    worked_hierarchies(chk, "params", chk.pick(1500, 12000), ["circuit"])
    kw = dict(kinds="RRRCCCEGG")
    chk.decks("parameters", hier_cases(chk, chk.pick(800, 6000), ["circuit"], **kw))
    chk.decks("deep", hier_cases(chk, chk.pick(80, 800), ["circuit"], ndefs=6, **kw))
    chk.decks("wide", hier_cases(chk, chk.pick(25, 300), ["circuit"], ndefs=chk.rng.randint(4, 18), topnodes=6, fanout=8, wide=True, **kw))
    chk.decks("chains", chains(chk, ["circuit"]))
    chk.decks("spoiled", spoiled_cases(chk, chk.pick(300, 3000)))
    chk.decks("simulated", hier_sims(chk, chk.pick(120, 1200), ["circuit", "axis", "rows"]))


@check("C11")
def c11(chk):
    rng = chk.rng
    worked_hierarchies(chk, "nodes", chk.pick(700, 9000), ["circuit", "names"])
    chk.decks("nodes", hier_cases(chk, chk.pick(600, 6000), ["circuit", "names"]))
    chk.decks("wide", hier_cases(chk, chk.pick(25, 300), ["circuit", "names"], ndefs=rng.randint(4, 18), topnodes=6, fanout=8, wide=True))
    cases = []
    for n in chk.pick([40, 120, 254, 255, 256, 257, 300, 513], list(range(250, 260)) + [300, 400, 511, 512, 513, 600]):
        cards = gen.linear(rng, n, UNIT, kinds="RIC", extra=n // 10)
        cases.append(op_case(cards, todo=["net", "op"], want=["circuit", "names"]))
    for n in chk.pick([20, 90], [20, 60, 90, 130]):        # many instances
        lines = [".subckt s a b", "R1 a m 1", "R2 m b 2", "R3 m n 1", "R4 n gnd 5", ".ends", "V1 n0 0 1"]
        for k in range(n):
            lines.append("X%d n%d n%d s" % (k, k, k + 1))
        cases.append(case({"deck.cir": ["title"] + lines + [".control", "op", ".endc"]}, todo=["net", "op"], want=["circuit", "names"]))
    for n in chk.pick([30, 100, 140, 250, 252, 254, 300, 508], list(range(120, 132)) + list(range(240, 260)) + [300, 400, 508, 510, 512, 600]):    # instances past so many nodes
        h = gen.Hierarchy(rng, ndefs=rng.randint(1, 3), sc=UNIT)
        pre = ["R%d l%d l%d 1" % (k, k, k + 1) for k in range(n)]
        cases.append(case({"deck.cir": ["title"] + pre + h.lines()}, todo=["net"], want=["circuit", "names"]))
    chk.decks("large", cases)
    chk.decks("chains", chains(chk, ["circuit", "names"]))
    # nodes that nothing connects to: ports and connections nobody uses
    cases = []
    for _ in range(chk.pick(80, 800)):
        cards = gen.linear(rng, rng.randint(1, 4), SLOW, kinds="RVIC")
        for k in range(rng.randint(1, 3)):
            if rng.chance(0.5):
                cards.append("X%d %s u%d s%s" % (k, rng.choice(["0", "u9", "1", "in"]), k, rng.choice("12")))
            else:
                cards.append("X%d u%d 0 s3" % (k, k))
        rng.shuffle(cards)
        cards += [".subckt s1 p q", ".ends", ".subckt s2 p q", "R1 p 0 5", ".ends", ".subckt s3 p q", "X1 q p s1", "R1 q 0 1", ".ends"]
        if rng.chance(0.5):
            cases.append(op_case(cards, todo=["net", "op"], want=["circuit", "names"]))
        else:
            cases.append(tran_case(rng, cards, 0.5, 2, want=["circuit", "names", "head", "axis", "rows"]))
    chk.decks("unconnected", cases)
    chk.decks("simulated", hier_sims(chk, chk.pick(120, 1200), ["circuit", "names", "head", "axis", "rows"]))


# ---------------------------------------------------------------- C13

def dressed(rng, c):
    """files as they come from other systems and editors"""
    files = c["files"]
    if rng.chance(0.2):
        for f in files:
            if rng.chance(0.7):
                files[f] = [l + "\r" for l in files[f]]
    c["unended"] = [f for f in files if rng.chance(0.2)]
    return c


def random_lines(rng, sim=False):
    h = gen.Hierarchy(rng, sc=rng.choice([UNIT, MILLI]), solvable=sim)
    ctl = []
    if rng.chance(0.7):
        step, stop = times(rng)
        ctl = gen.control(rng, rng.choice(["op", "tran"]), [seconds(step), seconds(min(stop, 3 * step))],
                          options=[(o, gen.text(rng, rng.logval(1e-6, 1))) for o in rng.sample(["ABSTOL", "RELTOL"], rng.randint(0, 2))])
    return h, ctl


@check("C13")
def c13(chk):
    rng = chk.rng
    want = ["config", "circuit", "names"]
    cases = []
    for _ in range(chk.pick(900, 8000)):
        h, ctl = random_lines(rng)
        parts = h.blocks()
        parts.insert(rng.randint(0, len(parts)), ctl)
        if rng.chance(0.3):            # some of it from a library, laid out as freely
            keep, lib = [], []
            for p in parts:
                (lib if rng.chance(0.4) and p is not ctl else keep).append(p)
            body = [".lib s1"] + [l for p in lib for l in p] + [".endl"]
            files = {"l.inc": [rng.choice(gen.TITLES + [".lib s1"] * 3)] + gen.relaid(rng, body, 0.2)}
            keep.insert(rng.randint(0, len(keep)), [".lib l.inc s1"])
            parts = keep
        else:
            files = {}
        files["deck.cir"] = [rng.choice(gen.TITLES)] + gen.relaid(rng, [l for p in parts for l in p], rng.choice([0, 0.2, 0.5]))
        cases.append(dressed(rng, case(files, todo=["net"], want=want)))
    v = chk.decks("layouts", cases)
    chk.need("layouts read", sum(1 for x in v.values() if x["note"] == ""), len(cases) // 2)
    sims = []
    for _ in range(chk.pick(150, 1500)):
        h, ctl = random_lines(rng, True)
        parts = h.blocks() + [ctl]
        kind = "tran" if ctl and ctl[-2].split()[0] == "tran" else "op"
        sims.append(dressed(rng, case({"deck.cir": [rng.choice(gen.TITLES)] + gen.relaid(rng, [l for p in parts for l in p])},
                         todo=["net", "op"] + (["tran"] if kind == "tran" else []), want=want + ["axis", "rows"])))
    chk.decks("simulated", sims)


# ---------------------------------------------------------------- C18

@check("C18")
def c18(chk):
    rng = chk.rng
    want = ["config", "circuit", "names", "head", "axis", "rows", "cli"]
    cases = []
    for n in range(chk.pick(200, 1500)):
        step, stop = times(rng)
        stop = min(stop, 8 * step)
        r = rng.random()
        if r < 0.5:
            cards = gen.Hierarchy(rng, solvable=True, sc=SLOW, kinds="RRCCVIESPG").lines()
        elif r < 0.65:
            cards = gen.linear(rng, rng.randint(1, 6), SLOW, strong=True)
        elif r < 0.85:
            # numbers of any size
            top = 10.0 ** rng.randint(-11, 9)
            sc = gen.Scale(r=SLOW.r, v=(top / 10, top), i=(top / 100, top / 10), c=SLOW.c, f=SLOW.f, t=SLOW.t)
            cards = gen.linear(rng, rng.randint(1, 5), sc, strong=True)
        else:
            cards = gen.diodes(rng, rng.randint(1, 4))
        start = stop * rng.choice([0.1, 0.5, 1.0]) if rng.chance(0.25) else None
        name = rng.choice(["deck.cir", "deck", "sub/x.spi", "a.b.c", "sub/sub/deck.cir"])
        c = tran_case(rng, cards, step, stop, start, want=want)
        c = case({name: c["files"]["deck.cir"]}, main=name, todo=c["todo"], want=want)
        c["cli"] = {"stale": rng.chance(0.5), "absolute": rng.chance(0.2)}
        cases.append(c)
    v = chk.decks("waveforms", cases)
    chk.need("waveform files read", sum(1 for x in v.values() if x["rows"] > 0), len(cases) // 2)
    chk.decks("any scale", scaled_cases(chk, chk.pick(80, 600), want, files=True))
    chk.decks("real circuits", [real_case(rng, (3, 25), want, cli={"stale": rng.chance(0.5)}) for _ in range(chk.pick(20, 200))])
    # long files, and wide ones
    cases = []
    for n in range(chk.pick(6, 40)):
        long = n % 2 == 0
        rows = rng.choice([1500, 2500, 4000]) if long else rng.choice([40, 90])
        cards = gen.linear(rng, rng.randint(1, 2) if long else rng.choice([30, 60, 90]), SLOW, kinds="SPSC", strong=True, extra=4)
        step = rng.choice([0.01, 0.02])
        cases.append(tran_case(rng, cards, 4 * step, rows * step, options=[("RMAX", 0.25)], want=want, cli={"stale": rng.chance(0.5)}))
    for n in chk.pick([20, 70, 150], [20, 33, 64, 65, 130, 256, 257, 300]):      # many columns of each kind
        cards = ["%s%d v%d %s %s" % (rng.choice("VVE"), k, k, rng.choice(gen.GROUNDS), "%d" % k) for k in range(n)]
        cards = [c if c[0] == "V" else " ".join(c.split()[:3] + ["0", "0 1"]) for c in cards] + ["R%d v%d w%d 1" % (k, k, rng.randrange(n)) for k in range(n)] + ["R%d w%d 0 1" % (k + n, k) for k in range(n)]
        rng.shuffle(cards)
        cases.append(tran_case(rng, cards, 0.5, 2, want=want, cli={"stale": rng.chance(0.5)}))
    chk.decks("long and wide", cases)
    # a file that can't be opened, or takes nothing
    cases = []
    for n in range(chk.pick(30, 200)):
        step, stop = times(rng)
        c = tran_case(rng, gen.linear(rng, rng.randint(1, 3), SLOW, strong=True), step, min(stop, 8 * step), want=["cli"], todo=["net"])
        c["cli"] = {"disk": ("full", "taken", "blocked")[n % 3], "absolute": rng.chance(0.2)}
        cases.append(c)
    chk.decks("nowhere to write", cases)


# ---------------------------------------------------------------- what TLC makes of the reader

def generated(chk, module, tag="CASE", **changes):
    """the cases a module prints, its constants replaced"""
    cfg = open(os.path.join(tsv.SPEC, module + ".cfg")).read()
    for k, v in changes.items():
        lines = cfg.split("\n")
        hit = [n for n, l in enumerate(lines) if l.strip().startswith(k + " ")]
        assert len(hit) == 1, (module, k)
        lines[hit[0]] = "    %s %s" % (k, v if str(v).startswith("<-") else "= %s" % v)
        cfg = "\n".join(lines)
    out = chk.tlc.printed(module + ".tla", cfg, tag, workers=1)
    return sorted(out, key=lambda c: json.dumps(c, sort_keys=True))


LIBRARIES = {
    "l.inc": ["* library", "R8 x 0 1", "R9 x 0 1", ".lib s1", "RL a lb 2k", "* .endl", ".endl", "junk"][1:],
    "sub/l.inc": ["* title", ".lib s1", "bad card", ".endl", ".lib s2", ".subckt s p q", "RS p q 3", ".ends", ".endl"]}


def reader_cases(chk, most, want):
    """each line in each kind of reader state"""
    cs = generated(chk, "ReaderGen", MaxLines=chk.pick(3, 4))
    chk.remark(**{"reader transitions": len(cs)})
    if len(cs) > most:
        short = [c for c in cs if len(c["lines"]) < 2]
        cs = short + chk.rng.sample([c for c in cs if len(c["lines"]) >= 2], most - len(short))
    return [case(dict(LIBRARIES, **{"deck.cir": ["title"] + c["lines"]}), todo=["net"], want=want) for c in cs]


def c13_reader(chk):
    v = chk.decks("lines in reader states", reader_cases(chk, chk.pick(1200, 20000), ["config", "circuit", "names"]))
    return v


_c13 = CHECKS["C13"]


@check("C13")
def c13_all(chk):
    _c13(chk)
    c13_reader(chk)


# ---------------------------------------------------------------- C14

def lib_text(rng, sections):
    """a library file with these sections {name: lines}, and other things around them"""
    out = [rng.choice(gen.TITLES + [".lib %s" % n for n in sections])]
    names = list(sections)
    rng.shuffle(names)
    outside = ["R99 zz 0 1", "junk", ".subckt", "* .lib s1", ".control", ".lib", "V9 1 0 1", "", "M1 a b c", ".ends", "; .lib s1", ".lib none"]
    for n in names:
        while rng.chance(0.3):
            out.append(rng.choice(outside))
        out.append(rng.choice([".lib %s", "  .lib  %s", ".lib %s ; start", ".lib\t%s"]) % n)
        out += gen.relaid(rng, sections[n], 0.15)
        out.append(rng.choice([".endl", " .endl", ".endl %s" % n, ".endl ; done"]))
    while rng.chance(0.3):
        out.append(rng.choice(outside))
    return out


def lib_cases(chk, count, want):
    """hierarchies with parts of them in a library"""
    rng = chk.rng
    cases = []
    for _ in range(count):
        h, ctl = random_lines(rng)
        parts = h.blocks()
        if ctl:
            parts.append(ctl)
        where = rng.choice(["l.inc", "lib/l.inc", "lib/a.lib", rng.choice(["parts$2.lib", "a=b/c,d.lib", "l(1).inc", "{l}.inc", "-x.lib", "l.lib.inc", "été.lib", "#l"])])
        main = rng.choice(["deck.cir", "deck.cir", "sub/deck.cir"])
        files = {}
        keep, secs, inside = [], {}, set()
        names = rng.sample(["s1", "s2", "models", "S1", "typ", "1", "a$b", "a=b", ".lib", "x.y", "{z}", "s1=", "(s1)", "#1", "R1", "*s"], rng.randint(1, 3))
        if rng.chance(0.25):       # names that only differ a little
            n = rng.choice(["models", "typical_corner", "s", "a_section_with_quite_a_long_name_%s" % ("x" * rng.choice([0, 30, 250])), "été"])
            names = rng.sample(sorted({n, n.upper(), n.capitalize(), n + "s", n[:-1] or "t", "_" + n, n + n, n[:-1] + "_"}), rng.randint(2, 3))
        for p in parts:
            r = rng.random()
            if r < 0.5:
                secs.setdefault(rng.choice(names), []).extend(p)
            elif r < 0.62 and len(p) > 3 and p[0].startswith(".subckt"):      # some lines of a definition
                n = "inside%d" % len(secs)
                i, j = sorted(rng.sample(range(1, len(p)), 2))
                secs[n] = p[i:j]
                keep.append(p[:i] + [".lib %s %s" % (where, n)] + p[j:])
                inside.add(n)
            else:
                keep.append(p)
        used = [n for n in secs if n not in inside]
        decoys = {n: [rng.choice(["R77 q1 q2 5", "junk", ".subckt s", "X1 a b nothing"])] for n in names if n not in secs}
        for n in used:
            keep.insert(rng.randint(0, len(keep)), [rng.choice([".lib %s %s", " .lib  %s  %s ; models"]) % (where, n)])
        if rng.chance(0.25) and used:            # a section of another file, or one that isn't there
            keep.append([".lib %s %s" % (rng.choice([where, "no.inc", where.upper(), "other.inc"]), rng.choice(names + ["nix"]))])
        files[main] = ["title"] + [l for p in keep for l in p]
        d = main.rsplit("/", 1)[0] + "/" if "/" in main else ""
        lt = lib_text(rng, dict(secs, **decoys))
        if rng.chance(0.1):
            lt = [l for l in lt if ".endl" not in l or rng.chance(0.5)]
        files[d + where] = lt
        if rng.chance(0.2):
            f = files[rng.choice([d + where, main])]
            n = rng.randrange(1, len(f)) if rng.chance(0.3) else rng.choice([i for i in range(len(f)) if ".lib" in f[i] or ".endl" in f[i]] + [0])
            f[n] = gen.slip(rng, f[n])
        if rng.chance(0.3):
            files[d + "other.inc"] = lib_text(rng, {"s1": ["R55 a b 5"], "typ": ["C55 a 0 1u"]})
        if d and rng.chance(0.5):
            files[where] = lib_text(rng, {n: ["R66 x y 6"] for n in names})      # not the one next to the deck
        cases.append(dressed(rng, case(files, main=main, todo=["net"], want=want)))
    return cases


@check("C14")
def c14(chk):
    rng = chk.rng
    want = ["config", "circuit", "names"]
    cases = []
    around = {"1": (["V1 a 0 1"], ["R9 a 0 9"]), "2": (["V1 a 0 1", "X9 a 0 t", ".subckt t p q"], ["R9 p 0 9", ".ends", "R9 a 0 9"])}
    for alphabet, length, place in [("Mixed", 4, "1"), ("Blocks", chk.pick(4, 5), "1"), ("Odd", 4, "1"), ("Nested", chk.pick(4, 5), "1"),
                                    ("Mixed", chk.pick(3, 4), "2"), ("Blocks", chk.pick(3, 4), "2")]:
        before, after = around[place]
        libs = [c["lib"] for c in generated(chk, "LibGen", Alphabet="<- " + alphabet, MaxLines=length, Ahead="<- Ahead" + place, Behind="<- Behind" + place)]
        telling = [l for l in libs if ".lib s1" in l and any(x.startswith(".endl") for x in l[l.index(".lib s1"):])]
        rest = [l for l in libs if l not in telling]
        for l in rng.sample(telling, min(len(telling), chk.pick(350, 6000))) + rng.sample(rest, min(len(rest), chk.pick(60, 500))):
            cases.append(case({"deck.cir": ["title"] + before + [".lib l.inc s1"] + after, "l.inc": [rng.choice(["* library", ".lib s1", "R1 a 0 1"])] + l,
                               "other.inc": ["* other", ".lib s1", "R5 a 0 5", ".endl"]}, todo=["net"], want=want))
    v = chk.decks("short libraries", cases)
    chk.need("libraries read", sum(1 for x in v.values() if x["note"] == ""), 150)
    chk.need("libraries refused", sum(1 for x in v.values() if x["note"] == "refused"), 150)
    cases = lib_cases(chk, chk.pick(600, 6000), want)
    v = chk.decks("libraries", cases)
    chk.need("decks with libraries read", sum(1 for x in v.values() if x["note"] == ""), 50)
    cli = []
    for c in rng.sample(cases, chk.pick(40, 400)):
        cli.append(case(c["files"], main=c["main"], todo=["net"], want=want, cli={}, unended=c["unended"]))
    chk.decks("by the program", cli)


# ---------------------------------------------------------------- C15

def faulty(rng, bad):
    """a deck that would simulate, with something wrong in it"""
    h = gen.Hierarchy(rng, solvable=True, sc=SLOW)
    parts = h.blocks()
    ctl = gen.control(rng, "tran", ["0.5", "2"])
    r = rng.random()
    lines = [l for p in parts for l in p]
    what = rng.random()
    if what < 0.5:
        lines.insert(rng.randint(0, len(lines)), rng.choice(bad))
    elif what < 0.9:
        lines = spoiled(rng, lines) or lines
    else:
        ctl = ctl[:-1] + [rng.choice([l for l in bad if l.split()[:1] and l.split()[0] in ("tran", "option", "op")] + ["tran 0.5", "option RELTOL 1"])] + ctl[-1:]
    if r < 0.06:
        ctl = ctl[:-1]
    elif r < 0.1:
        ctl = ctl[1:]
    if rng.chance(0.5):
        lines = ctl + lines
    else:
        lines = lines + ctl
    if rng.chance(0.15):
        files = {"deck.cir": ["title", ".lib f.inc all"], "f.inc": ["* f", ".lib all"] + lines + [".endl"]}
    else:
        files = {"deck.cir": ["title"] + lines}
    # other things that are fine, around it
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        f = rng.choice(list(files))
        inside = f == "f.inc"
        at = rng.randint(2, len(files[f]) - 1) if inside else rng.randint(1, len(files[f]))
        k = rng.choice(["lib", "lib", "ctl", "def", "card"])
        if k == "lib" and not inside:
            n = len(files)
            files["g%d.inc" % n] = ["* g", "junk", ".lib typ", "R%d g%d 0 1" % (90 + n, n), ".endl", "junk"]
            new = [".lib g%d.inc typ" % n]
        elif k == "ctl":
            new = [".control", rng.choice(["* nothing", "option", "option RELTOL = 1m", "op"]), ".endc"]
        elif k == "def":
            new = [".subckt unused a b", "R1 a b 1", ".ends"]
        else:
            new = ["R99 0 z 5"]
        files[f][at:at] = new
    return dict(LIBRARIES, **files)


@check("C15")
def c15(chk):
    rng = chk.rng
    want = ["config", "circuit"]
    cases = reader_cases(chk, chk.pick(2500, 40000), want)
    bad = sorted({c["files"]["deck.cir"][-1] for c in cases if len(c["files"]["deck.cir"]) == 2})
    v = chk.decks("lines in reader states", cases)
    chk.need("decks refused", sum(1 for x in v.values() if x["note"] == "refused"), 500)
    chk.need("decks accepted", sum(1 for x in v.values() if x["note"] == ""), 150)
    cases = [dressed(rng, case(faulty(rng, bad), todo=["net"], want=want, cli={"stale": rng.chance(0.3)})) for _ in range(chk.pick(450, 3000))]
    v = chk.decks("faults", cases)
    chk.need("faulty decks refused by the program", sum(1 for x in v.values() if x["note"] == "refused"), 100)
    v = chk.decks("slips", slipped_cases(chk, chk.pick(2500, 30000)))
    chk.need("slips refused", sum(1 for x in v.values() if x["note"] == "refused"), 400)
    chk.need("slips without consequence", sum(1 for x in v.values() if x["note"] == ""), 200)


# ---------------------------------------------------------------- C16

@check("C16")
def c16(chk):
    rng = chk.rng
    want = ["config"]
    cases = []
    for alphabet in ("Commands", "Guises"):
        cs = [c["ctl"] for c in generated(chk, "ControlGen", Alphabet="<- " + alphabet, MaxLines=3)]
        most = chk.pick(900, 8000)
        short = [c for c in cs if len(c) < 3]
        short = rng.sample(short, min(len(short), most // 2))
        longer = [c for c in cs if len(c) == 3]
        for c in short + rng.sample(longer, min(len(longer), most - len(short))):
            cases.append(case({"deck.cir": ["title", "V1 1 0 1", "R1 1 0 1", ".control"] + c + [".endc"]}, todo=["net"], want=want))
    for _ in range(chk.pick(300, 3000)):
        num = lambda: rng.choice(["%.6g" % rng.signed(rng.logval(1e-12, 1e12)), "%.4g" % rng.logval(1e-6, 1e3), "%.3g" % rng.logval(1e-3, 10), "0", "-0",
                                  "%.3g%s" % (rng.signed(rng.uniform(0, 20)), rng.choice("kmunp"))])
        c = []
        for _ in range(rng.randint(1, 4)):
            if rng.chance(0.5):
                c.append("tran " + " ".join(num() for _ in range(rng.choice([2, 2, 3]))))
            else:
                c.append("option %s = %s" % (rng.choice(["ABSTOL", "RELTOL", "RMAX"]), num()))
        cases.append(case({"deck.cir": ["title", "V1 1 0 1", "R1 1 0 1", ".control"] + c + [".endc"]}, todo=["net"], want=want))
    cases += slipped_cases(chk, chk.pick(500, 8000), 0.0, want=want)
    v = chk.decks("control blocks", cases)
    chk.need("control blocks read", sum(1 for x in v.values() if x["note"] == ""), 300)
    # the analysis with these settings is the one that gets run
    sims = []
    for _ in range(chk.pick(120, 1500)):
        cards = gen.linear(rng, rng.randint(1, 3), SLOW, kinds="CVISP", strong=True, extra=rng.randint(1, 3))
        ctl = []
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            step, stop = times(rng)
            if r < 0.3:
                ctl.append("tran %s %s" % (seconds(step), seconds(min(stop, 6 * step))) + (" " + seconds(step * rng.choice([0, 0.5, 1.5])) if rng.chance(0.2) else ""))
            elif r < 0.4:
                ctl.append("op")
            elif r < 0.6:
                ctl.append("option RMAX = %s" % rng.choice(["0.1", "0.17", "0.25", "0.5", "1", "2", "1k"]))
            elif r < 0.75:
                ctl.append("option RELTOL = %s" % rng.choice(["0.1", "10m", "1e-3", "0.5"]))
            elif r < 0.9:
                ctl.append("option ABSTOL = %s" % rng.choice(["0.1", "10m", "1e-3", "1u"]))
            else:
                ctl.append(rng.choice(["option", "print v(1)", "* op", "option VNTOL = 1"]))
        cut = rng.randint(0, len(ctl)) if rng.chance(0.3) else len(ctl)
        cards.insert(rng.randint(0, len(cards)), None)
        lines = []
        for c in cards:
            lines += [c] if c else [".control"] + ctl[:cut] + [".endc"]
        if cut < len(ctl):
            lines += [".control"] + ctl[cut:] + [".endc"]
        tran = [l for l in ctl if l.split()[0] in ("op", "tran")]
        kind = tran[-1].split()[0] if tran else "none"
        todo = ["net", "op", "tran"] if kind == "tran" else ["net", "op"]
        sims.append(case({"deck.cir": ["title"] + lines}, todo=todo,
                         want=["config", "circuit", "axis", "rows", "steps", "exact", "iterations", "cli"], cli={"stale": rng.chance(0.3)}))
    chk.decks("analyses", sims)


# ---------------------------------------------------------------- C20

def account(rng, cs, share=1.0):
    """cases to be run by the program, which has to tell of them"""
    out = []
    for c in cs:
        if rng.chance(share):
            c["want"] = ["config", "log"]
            c["over"] = []
            c.setdefault("cli", {"absolute": rng.chance(0.15)})
            out.append(c)
    return out


@check("C20")
def c20(chk):
    rng = chk.rng
    cases = []
    for n in range(chk.pick(250, 2500)):
        r = rng.random()
        sc = decade(rng)[0] if rng.chance(0.4) else SLOW
        if r < 0.55:
            lines = gen.Hierarchy(rng, sc=sc, solvable=rng.chance(0.5), kinds="RRCCVIESPGD").lines()
        elif r < 0.85:
            lines = gen.linear(rng, rng.randint(1, 8), sc, strong=True)
        else:
            lines = gen.diodes(rng, rng.randint(1, 4))
        kind = rng.choice(["tran", "tran", "op", "none"])
        step, stop = times(rng)
        t = [seconds(step), seconds(min(stop, 4 * step))] + ([seconds(step * rng.choice([0, 0.5, 2]))] if rng.chance(0.3) else [])
        ctl = [] if kind == "none" and rng.chance(0.5) else gen.control(rng, kind, t) if kind != "none" else [".control", ".endc"]
        name = rng.choice(["deck.cir", "deck", "sub/x.spi", "a.b.c"])
        cases.append(case({name: gen.deck(lines, ctl)}, main=name, todo=["net"] + (["op", "tran"] if kind == "tran" else ["op"] if kind == "op" else [])))
    v = chk.decks("accounts", account(rng, cases))
    chk.need("runs told of", sum(1 for x in v.values() if x["note"] != "refused"), len(cases) // 2)
    cases = []
    for n in chk.pick([60, 130, 260, 520], [60, 99, 100, 101, 128, 129, 200, 256, 257, 520, 1030]):       # long listings
        lines = ["%s%d n%d %s %d" % (rng.choice("RRC"), k, rng.randint(1, n // 4), rng.choice(["0", "n1"]), k + 1) for k in range(n // 2)]
        lines += ["R%d n%d 0 1" % (n + k, k) for k in range(1, n // 4 + 1)] + ["V1 n1 0 1", ".subckt s p", "R1 p q 1", "R2 q 0 2", ".ends"]
        lines += ["X%d n%d s" % (k, rng.randint(1, n // 4)) for k in range(n // 8)]
        rng.shuffle(lines[:n // 2])
        cases.append(case({"deck.cir": gen.deck(lines, gen.control(rng, "op", []))}, todo=["net", "op"]))
    chk.decks("long listings", account(rng, cases))
    chk.decks("real circuits", account(rng, [real_case(rng, (3, 10), cli={}) for _ in range(chk.pick(20, 200))]))
    chk.decks("libraries", account(rng, lib_cases(chk, chk.pick(80, 800), [])))
    bad = ["X1 a b", ".foo", "R1 a", "C1 a b x", "V1 a 0 SIN(1 2)", ".subckt", "X9 a b nothing", "Q1 a b c"]
    v = chk.decks("faults", account(rng, [dressed(rng, case(faulty(rng, bad), todo=["net"])) for _ in range(chk.pick(150, 1500))]))
    chk.need("refusals told of", sum(1 for x in v.values() if x["note"] == "refused"), 60)
    v = chk.decks("slips", account(rng, slipped_cases(chk, chk.pick(300, 3000))))
    chk.need("slips told of", sum(1 for x in v.values() if x["note"] == "refused"), 60)
