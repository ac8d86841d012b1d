"""Running a check: its cases, its verdicts, its evidence."""
import json
import os
import random
import resource
import shutil
import time
from concurrent.futures import ThreadPoolExecutor

import gen
import tsv
from tsv import ToolError, say

KNOWN = os.path.join(tsv.VERIF, "known-findings.txt")


class Check:
    def __init__(self, pid, tier, seed, work):
        self.pid, self.tier, self.seed, self.work = pid, tier, seed, work
        self.rng = gen.Rng("%s-%d" % (pid, seed))
        self.tlc = tsv.Tlc(work)
        self.thorough = tier == "thorough"
        self.traces = 0          # recorded runs compared with the specification
        self.notes = {}          # what came of them
        self.samples = []
        self.violations = []     # (key, what, replay dict)
        self.parts = {}          # counts of the parts of the check
        self.n = 0
        self.assumptions = []

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def remark(self, **counts):
        for k, v in counts.items():
            self.parts[k] = self.parts.get(k, 0) + v

    def fresh_id(self, prefix):
        self.n += 1
        return "%s%d" % (prefix.replace(" ", "-"), self.n)

    # ------------------------------------------------------------ decks

    def decks(self, part, cases, rename=None):
        """Run decks through the library and follow them along Conf.tla."""
        for c in cases:
            c.setdefault("id", self.fresh_id(part))
        if not cases:
            return {}
        exe = tsv.build_driver("decks")
        t0 = time.time()
        obs = tsv.run_driver(exe, self.work, cases, tsv.case_input)
        shown = {c["id"]: tsv.deck_obs(obs[c["id"]]) for c in cases}
        for c in cases:
            c["cuts"] = cuts(shown[c["id"]])
            c.seen = shown[c["id"]]
            self.shorten(c)
        self.cli(cases, shown, obs)
        t1 = time.time()
        tc = [tsv.tla_case(c, shown[c["id"]]) for c in cases]
        verdicts = self.tlc.verdicts("Conf.tla", tsv.CONF_CFG, tc)
        say("%s: %d decks, driver %.1f s, TLC %.1f s" % (part, len(cases), t1 - t0, time.time() - t1))
        self.judge(part, cases, verdicts, obs)
        return verdicts

    def shorten(self, c):
        """TLC takes a state for each row: of endless runs, only the times and the outcome are judged"""
        if len(c.seen.get("tran", {}).get("rows", ())) > 4000 and set(c["want"]) & {"rows", "steps", "exact"}:
            c["want"] = [w for w in c["want"] if w not in ("rows", "steps", "exact")]
            self.remark(**{"runs too long to follow": 1})

    def cli(self, cases, shown, obs):
        """Run the program itself on the cases that want that (cli: how)."""
        todo = [c for c in cases if "cli" in c]
        if not todo:
            return
        exe = tsv.build_cli()
        with ThreadPoolExecutor(tsv.JOBS) as ex:
            for c, (runs, texts) in zip(todo, ex.map(lambda c: tsv.run_cli(exe, self.work, c, **c["cli"]), todo)):
                tsv.add_cli(shown[c["id"]], obs[c["id"]], runs)
        self.remark(**{"runs of the program": sum(c["cli"].get("runs", 1) for c in todo)})

    def judge(self, part, cases, verdicts, obs):
        self.traces += len(cases)
        self.remark(**{part: len(cases)})
        shown = False
        for c in cases:
            v = verdicts[c["id"]]
            if v["bad"]:
                self.violate(part, v["bad"], {"case": dict(c), "verdict": v, "obs": obs.get(c["id"])})
            note = v.get("note") or "compared"
            self.notes[part + ": " + note] = self.notes.get(part + ": " + note, 0) + 1
            if not shown and not v["bad"]:
                shown = True
                self.samples.append({"part": part, "case": sample(c), "verdict": v})

    def violate(self, part, what, replay, key=None):
        self.violations.append((key or part, what, replay))

    def need(self, what, have, least):
        """the check would say little without these"""
        self.parts[what] = have
        if have < least and not self.violations:
            raise ToolError("vacuous: %d %s, at least %d expected" % (have, what, least))

    # ------------------------------------------------------------ the end

    def finish(self, wall):
        known = known_findings(self.pid)
        out = []
        for n, (key, what, replay) in enumerate(self.violations):
            if key in known:
                say("KNOWN-FINDING: property=%s %s" % (self.pid, what))
                continue
            out.append((key, what, replay))
        d = os.path.join(tsv.BUILD, "replay", self.pid)
        shutil.rmtree(d, ignore_errors=True)
        first = None
        for n, (key, what, replay) in enumerate(out[:10]):
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%d.json" % n)
            with open(p, "w") as f:
                json.dump({"property": self.pid, "part": key, "what": what, **replay}, f, indent=1)
            first = first or p
            say("  %s: %s  (%s)" % (key, what, p))
        if len(out) > 10:
            say("  ... and %d more" % (len(out) - 10))
        coverage = {"states": self.tlc.states, "transitions": self.tlc.transitions,
                    "traces_validated_against_impl": self.traces,
                    "parts": self.parts, "outcomes": self.notes,
                    "tlc_runs": self.tlc.runs, "samples": self.samples[:8]}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": "model_checking", "coverage": coverage,
              "assumptions": self.assumptions, "wall_s": round(wall, 1), "violations": len(out)}
        os.makedirs(os.path.join(tsv.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(tsv.VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if out:
            say("VIOLATION property=%s replay=%s" % (self.pid, first))
            return 1
        say("%s: held on %d recorded runs, %d states (%.0f s)" % (self.pid, self.traces, self.tlc.states, wall))
        return 0


def cuts(o):
    """steps that are shorter than the one before, the last one aside"""
    t = [float(r[0]) for r in o.get("tran", {}).get("rows", []) if r]
    h = [b - a for a, b in zip(t, t[1:])]
    return sum(1 for a, b in zip(h, h[1:-1]) if b < a * 0.9)


def sample(c):
    c = {k: v for k, v in dict(c).items() if k in ("id", "files", "main", "over", "todo", "want", "text", "session", "decks", "calls")}
    s = json.dumps(c)
    return c if len(s) < 3000 else s[:3000] + "..."


def known_findings(pid):
    keys = set()
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("known: property=%s " % pid):
                keys.add(line.split()[2].split("=", 1)[1])
    return keys


def run_check(pid):
    import checks
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if pid not in checks.CHECKS:
        print("no such check: " + pid)
        return 2
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t0 = time.time()
    with tsv.Work() as work:
        chk = Check(pid, tier, seed, work)
        checks.CHECKS[pid](chk)
        return chk.finish(time.time() - t0)


def replay(path):
    """run the case of a violation again"""
    import checks
    r = json.load(open(path))
    if "case" not in r or "files" not in r["case"] or r["case"].get("session"):
        print(json.dumps(r, indent=1)[:4000])
        print("(not a single deck: run the check again)")
        return 2
    with tsv.Work() as work:
        chk = Check(r["property"], "quick", 1, work)
        c = tsv.Case(r["case"])
        v = chk.decks("replay", [c])[c["id"]]
        for name, lines in c["files"].items():
            print("---- " + name)
            print("\n".join(lines))
        print(json.dumps(v))
        return 1 if v["bad"] else 0


def setup():
    """build everything once, to see that it builds"""
    tsv.build_classes()
    for name in ("decks", "values", "waves", "agree"):
        try:
            tsv.build_driver(name)
        except ToolError as e:
            if name != "agree":      # its check does without
                raise
            say(str(e)[-300:])
    tsv.build_cli()
    return 0
