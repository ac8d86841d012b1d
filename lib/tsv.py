"""Builds the simulator's drivers from /repo, runs cases through them, and has
TLC follow the recorded runs along the specification in /verif/spec."""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
TLA = "/opt/veriftools/tla"
JOBS = 8


class ToolError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_classes():
    out = os.path.join(BUILD, "classes")
    src = os.path.join(SPEC, "java", "tsv", "NumOverrides.java")
    stamp = os.path.join(out, "stamp")
    want = open(src).read()
    if os.path.exists(stamp) and open(stamp).read() == want:
        return out
    os.makedirs(out, exist_ok=True)
    r = sh(["javac", "-cp", TLA + "/tla2tools.jar", "-d", out, src])
    if r.returncode:
        raise ToolError("javac: " + r.stdout)
    open(stamp, "w").write(want)
    return out


def cargo_env(target):
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, target)
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("RUSTFLAGS", None)
    return env


def build_driver(name):
    """one of the harness's programs, linked with /repo's library"""
    r = sh(["cargo", "build", "--offline", "--locked", "--bin", name],
           cwd=os.path.join(VERIF, "harness"), env=cargo_env("harness"))
    if r.returncode:
        raise ToolError("cargo build of driver %s failed:\n%s" % (name, r.stdout[-3000:]))
    return os.path.join(BUILD, "harness", "debug", name)


def build_cli():
    """/repo's own command line program"""
    r = sh(["cargo", "build", "--offline", "--locked", "--bin", "tiny-spice-rs",
            "--manifest-path", REPO + "/Cargo.toml"], cwd=BUILD, env=cargo_env("cli"))
    if r.returncode:
        raise ToolError("cargo build of the simulator failed:\n" + r.stdout[-3000:])
    return os.path.join(BUILD, "cli", "debug", "tiny-spice-rs")


class Work:
    """a scratch directory for the length of a run"""
    def __enter__(self):
        base = os.path.join(BUILD, "work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="w", dir=base)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.dir, *p)


# ---------------------------------------------------------------- cases

class Case(dict):
    """id, files {name: [lines]}, main, over [(setting, value)], todo, want"""


INT_SETTINGS = ("ITL1", "ITL3", "ITL4")


def case(files, main="deck.cir", over=(), todo=("op",), want=("config", "circuit"), **kw):
    return Case(files=files, main=main, over=list(over), todo=list(todo), want=list(want), **kw)


def call(f, name="", of="", way="", kind="", n=(), v=()):
    """a call of Builder.tla's"""
    return {"f": f, "name": name, "of": of, "way": way, "kind": kind, "n": list(n), "v": list(v)}


def num_text(x):
    return repr(float(x))


def case_input(c):
    out = ["CASE %s" % c["id"]]
    for name, lines in c["files"].items():
        out.append("FILE %s %d%s" % (name, len(lines), " unended" if name in c.get("unended", ()) else ""))
        out += lines
    for d in c.get("decks", [c["main"]] if "calls" not in c else []):
        out.append("DECK " + d)
    for k in c.get("calls", ()):
        out.append("CALL " + "|".join([k["f"], k["name"], k["of"], k["way"], k["kind"], ",".join(k["n"]), ",".join(k["v"])]))
    for k, v in c["over"]:
        out.append("SET %s %s" % (k, v if k in INT_SETTINGS else num_text(v)))
    for t in c["todo"]:
        out.append("DO " + t)
    if "repeat" in c:
        out.append("REPEAT %d" % c["repeat"])
    if c.get("session"):
        if c.get("alike"):
            out.append("ALIKE")
        out.append("SESSION " + " ".join("%d:%s" % s for s in c["session"]))
    out.append("END")
    return "\n".join(out) + "\n"


def small_files():
    """what never ends doesn't fill the disk"""
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))


def run_driver(exe, work, cases, to_input, timeout=20):
    """Run cases, split over processes; returns {id: observation}.  A case that
    takes the process down is {"crash": True}, one that hangs {"hang": True}.
    Once some have hung, less patience is had with the others."""
    hangs = []
    ids = [c["id"] for c in cases]
    assert len(set(ids)) == len(ids)
    shards = [cases[n::JOBS] for n in range(JOBS)]
    results = {}
    lock = threading.Lock()

    def shard(n):
        todo = list(shards[n])
        attempt = 0
        while todo:
            attempt += 1
            d = work.path("run-%s-%d-%d" % (os.path.basename(exe), n, attempt))
            os.makedirs(d)
            inp, res = d + "/cases.txt", d + "/results.txt"
            with open(inp, "w", newline="") as f:
                for c in todo:
                    f.write(to_input(c))
            open(res, "w").close()
            with open(d + "/stdout.log", "w") as log:
                p = subprocess.Popen([exe, inp, res, d], stdout=log, stderr=subprocess.STDOUT,
                                     cwd=d, start_new_session=True, preexec_fn=small_files)
                size, since, hung = 0, time.time(), False
                while p.poll() is None:
                    try:
                        p.wait(0.05 if time.time() - since < 1 else 0.25)
                    except subprocess.TimeoutExpired:
                        pass
                    now = os.path.getsize(res)
                    if now != size:
                        size, since = now, time.time()
                    elif time.time() - since > (timeout if len(hangs) < 4 else timeout / 10):
                        hung = True
                        hangs.append(n)
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
            begun, done = None, set()
            with open(res) as f:
                for line in f:
                    line = line.strip()
                    if not line:
                        continue
                    try:
                        o = json.loads(line)
                    except ValueError:
                        continue    # cut short by the end of the process
                    if "begin" in o:
                        begun = o["begin"]
                    else:
                        done.add(o["id"])
                        with lock:
                            results[o["id"]] = o
            shutil.rmtree(d, ignore_errors=True)
            rest = [c for c in todo if c["id"] not in done]
            if rest and p.returncode == 0 and not hung:
                raise ToolError("driver gave no result for %s" % rest[0]["id"])
            if rest:
                if begun is None or begun in done:
                    raise ToolError("driver %s stopped between cases (%s)" % (exe, p.returncode))
                with lock:
                    results[begun] = {"id": begun, "hang" if hung else "crash": True}
                rest = [c for c in rest if c["id"] != begun]
            todo = rest

    with ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(shard, n) for n in range(JOBS) if shards[n]]:
            f.result()
    return results


# ---------------------------------------------------------------- the program itself

def sha(data):
    return hashlib.sha1(data).hexdigest()


STALE = b"stale\n" * 4000


CLI_HANGS = []


def run_cli(exe, work, c, runs=1, stale=False, absolute=False, disk="good", timeout=30):
    """Run the simulator on a case's deck in a directory of its own; what Conf.tla
    is shown of each run, and the waveform texts."""
    d = tempfile.mkdtemp(prefix="cli", dir=work.dir)
    for name, lines in c["files"].items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", newline="") as f:
            f.write("\n".join(lines) + ("" if name in c.get("unended", ()) else "\n"))
    arg = os.path.join(d, c["main"]) if absolute else c["main"]
    wave = os.path.join(d, "waves", arg.lstrip("/"), "tran.dat")
    known = {os.path.normpath(n) for n in c["files"]}

    def results():
        for top, _, names in os.walk(d):
            for n in names:
                p = os.path.join(top, n)
                if os.path.relpath(p, d) not in known and not os.path.islink(p):
                    yield p

    if disk == "full":
        os.makedirs(os.path.dirname(wave))
        os.symlink("/dev/full", wave)
    elif disk == "taken":
        os.makedirs(wave)
    elif disk == "blocked":
        open(os.path.join(d, "waves"), "w").close()
        known.add("waves")
    elif stale:
        os.makedirs(os.path.dirname(wave))
        open(wave, "wb").write(STALE)
    out = []
    texts = []
    for _ in range(runs):
        for p in results():
            os.utime(p, (0, 0))          # to see what gets written
        with tempfile.TemporaryFile(dir=work.dir) as f:
            p = subprocess.Popen([exe, arg], cwd=d, stdout=f, stderr=subprocess.STDOUT, start_new_session=True,
                                 preexec_fn=small_files)
            try:
                p.wait(timeout if len(CLI_HANGS) < 4 else timeout / 10)
            except subprocess.TimeoutExpired:
                CLI_HANGS.append(d)
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            f.seek(0)
            log = f.read(1 << 26)
        wrote = {os.path.relpath(p, d): open(p, "rb").read(1 << 26) for p in results() if os.path.getmtime(p) != 0}
        out.append({"path": arg.lstrip("/"),
                    "disk": disk,
                    "ended": "well" if p.returncode == 0 else "badly",
                    "errors": log.decode("utf-8", "replace").count("*ERROR*"),
                    "log": parse_log(log.decode("utf-8", "replace")),
                    "wrote": [[k, sha(v)] for k, v in sorted(wrote.items())]})
        texts.append(wrote.get(os.path.relpath(wave, d), b"").decode("utf-8", "replace"))
    shutil.rmtree(d, ignore_errors=True)
    return out, texts


LISTED = {"I": "I", "R": "R", "V": "V", "D": "D", "C": "C", "Isin": "ISIN", "Vsin": "VSIN", "Vpwl": "VPWL", "VCVS": "E", "VCCS": "G"}
SHOWN_NUMBER = re.compile(r"^[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$|^-?inf$|^NaN$")


def listed(text):
    """an element as the program lists it: [kind, nodes, numbers, name]"""
    kind, _, rest = text.strip().partition(" ")
    rest, name = rest.strip(), ""
    m = re.search(r"\s\((\S*)\)$", rest)
    if m:
        rest, name = rest[:m.start()], m.group(1)
    words = re.sub(r"sin\(2pi|k=|I_sat=|\)", " ", rest).split()
    nodes = [int(w.split(":")[1]) for w in words if re.match(r"^[a-z]+:\d+$", w)]
    return [LISTED.get(kind, kind), nodes, [w for w in words if SHOWN_NUMBER.match(w)], name]


def parse_log(log):
    """what the program says of a run"""
    found = lambda pattern: [m.groups() if len(m.groups()) > 1 else m.group(1) for m in (re.match(pattern, l) for l in log.split("\n")) if m]
    out = {"els": [], "nodes": {}, "listings": 0}
    block = []
    for l in log.split("\n") + [""]:
        if l.strip():
            block.append(l)
            continue
        if any(b.startswith(" node: ") for b in block) and not block[0].startswith("Circuit:"):
            out["listings"] += 1
            out["els"] = [listed(b[7:]) for b in block if b.startswith(" elem: ")]
            for b in block:
                m = re.match(r"^ node: (\S+) \((\d+)\)$", b)
                if m:
                    out["nodes"][m.group(1)] = int(m.group(2))
        block = []
    # (the listing isn't set off from what follows)
    out["defs"] = [int(x) for x in found(r"^Number of subcircuit definitions: (\d+)$")]
    out["count"] = [int(x) for x in found(r"^\*INFO\* There are (\d+) nodes")]
    out["sources"] = [int(x) for x in found(r"^\*INFO\* There are (\d+) voltage sources")]
    out["window"] = [list(x) for x in found(r"^\*CONFIG\* TIME (\S+) to (\S+) by (\S+)$")]
    out["into"] = [os.path.normpath(x) for x in found(r"^\*INFO\* Dumping into file (.*)$")]
    out["end"] = found(r"^\*INFO\* Finished at time (\S+)$")
    out["done"] = len(found(r"^(\*INFO\* Done)$"))
    out["said"] = log.count("*ERROR*") + log.count("*FATAL*") + log.count("panicked")
    return out


# ---------------------------------------------------------------- observations

NUMBER = re.compile(r"^-?(\d+\.\d+|NaN|inf)$")


def parse_wave(text):
    """waveform file -> head, units, rows, and what is wrong with its shape"""
    bad = ""
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    else:
        bad = "last line is cut short"
    if len(lines) < 3:
        return [], [], [], "less than three lines"
    head = []
    for n, h in enumerate(lines[0].split("\t")):
        m = re.match(r"^([vi])\((.*)\)$", h)
        head.append([m.group(1), m.group(2)] if m and n > 0 else [h, ""])
    units = lines[1].split("\t")
    rows = []
    for l in lines[2:]:
        vals = l.split("\t")
        for v in vals:
            if not NUMBER.match(v):
                bad = bad or "not a number: %r" % v[:40]
            elif "." in v and len(v.split(".")[1]) != 9:
                bad = bad or "not nine decimals: " + v[:40]
        rows.append(vals)
    return head, units, rows, bad


def deck_obs(o):
    """what Conf.tla is shown of a driver's observation of one deck"""
    if o.get("crash") or o.get("hang"):
        return {"read": "hang" if o.get("hang") else "crash", "saw": []}
    obs = one_deck(o["decks"][0])
    if len(o["decks"]) > 1:
        obs["again"] = [{k: sha(json.dumps(d.get(k), sort_keys=True).encode()) for k in ("read", "cfg", "net", "op", "tran")} for d in o["decks"]]
    return obs


def add_cli(obs, o, runs):
    """what the program itself did, and digests of what the library wrote"""
    obs["cli"] = runs
    obs["lib"] = [sha(d["tran"]["wave"].encode()) for d in o.get("decks", []) if d.get("tran", {}).get("wave") is not None]


def one_deck(d):
    obs = {"read": d["read"], "saw": [k for k in ("net", "op", "tran") if k in d]}
    if "rets" in d:
        obs["rets"] = d["rets"]
    if "cfg" in d:
        obs["cfg"] = d["cfg"]
    if "net" in d:
        obs["net"] = d["net"]
    if "op" in d:
        obs["op"] = {k: d["op"][k] for k in ("status", "errors", "iters", "x")}
    if "tran" in d:
        obs["tran"] = tran_obs(d["tran"])
    return obs


def tran_obs(t):
    out = {k: t[k] for k in ("status", "errors", "end", "iters")}
    if t.get("wave") is None:
        out.update(head=[], units=[], rows=[], malformed="no waveform file")
    else:
        head, units, rows, bad = parse_wave(t["wave"])
        out.update(head=head, units=units, rows=rows, malformed=bad)
    return out


def tla_case(c, obs):
    names = list(c["files"])
    return {"id": c["id"], "names": names, "files": [c["files"][n] for n in names],
            "main": c["main"], "want": c["want"], "calls": c.get("calls", []),
            "over": [[k, v if k in INT_SETTINGS else num_text(v)] for k, v in c["over"]],
            "obs": obs}


# ---------------------------------------------------------------- TLC

STATS = re.compile(r"^(\d+) states generated, (\d+) distinct states found")


class Tlc:
    """runs of TLC; adds up states and transitions"""
    def __init__(self, work):
        self.work = work
        self.states = self.transitions = self.runs = 0
        self.classes = build_classes()

    def run(self, module, cfg, env=None, workers=JOBS, timeout=800, extra=(), heap="10g"):
        self.runs += 1
        d = self.work.path("tlc-%d" % self.runs)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        if "\n" in cfg:
            open(d + "/run.cfg", "w").write(cfg)
            cfg = "run.cfg"
        else:
            shutil.copy(os.path.join(SPEC, cfg), d)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC",
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:tsv.NumOverrides",
               "-cp", ":".join([self.classes, TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]),
               "tlc2.TLC", "-workers", str(workers), "-metadir", d + "/meta", "-noGenerateSpecTE",
               "-config", cfg] + list(extra) + [module]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC took more than %d s on %s" % (timeout, module))
        for line in r.stdout.split("\n"):
            m = STATS.match(line)
            if m:
                self.transitions += int(m.group(1))
                self.states += int(m.group(2))
        shutil.rmtree(d, ignore_errors=True)
        return r.returncode, r.stdout

    def model_check(self, module, cfg, **kw):
        """a design-level check: has to pass"""
        rc, out = self.run(module, cfg, **kw)
        if rc != 0 or "No error has been found" not in out:
            raise ToolError("TLC on %s:\n%s" % (module, out[-3000:]))
        return out

    def printed(self, module, cfg, tag, **kw):
        """what a module prints as JSON after tag"""
        rc, out = self.run(module, cfg, **kw)
        if rc != 0:
            raise ToolError("TLC on %s:\n%s" % (module, out[-3000:]))
        return list(tagged(out, tag))

    def verdicts(self, module, cfg, cases, workers=JOBS):
        """Follow cases along a conformance module; {id: verdict}.  A case the
        specification cannot even be evaluated on gets a verdict saying so."""
        self.runs_before = self.runs
        path = self.work.path("cases-%d.ndjson" % (self.runs + 1))
        with open(path, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        rc, out = self.run(module, cfg, env={"CASES": path}, workers=workers)
        os.remove(path)
        got = {v["id"]: v for v in tagged(out, "VERDICT")}
        if rc == 0 and len(got) == len(cases):
            return got
        if rc == 0:
            missing = [c["id"] for c in cases if c["id"] not in got]
            raise ToolError("no verdict for %s\n%s" % (missing[:5], out[-2000:]))
        if "Semantic errors" in out or "Parse Error" in out:
            raise ToolError("TLC on %s:\n%s" % (module, out[-3000:]))
        if "OutOfMemory" in out or "StackOverflow" in out or rc in (-9, 137):
            raise ToolError("TLC ran out of memory:\n" + out[-2000:])
        if len(cases) == 1:
            self.beyond = getattr(self, "beyond", 0) + 1
            if "Error evaluating" in out or "Attempted to" in out or "evaluat" in out or "argument" in out:
                return {cases[0]["id"]: {"id": cases[0]["id"], "rows": 0, "note": "",
                        "bad": "observation outside the specification: " + tlc_error(out)}}
            raise ToolError("TLC on %s:\n%s" % (module, out[-3000:]))
        rest = [c for c in cases if c["id"] not in got]
        if len(rest) == len(cases) or len(rest) == 0:
            rest = cases
            got = {}
        half = (len(rest) + 1) // 2
        for part in (rest[:half], rest[half:]):
            if part and getattr(self, "beyond", 0) > 5:    # enough to say so
                got.update({c["id"]: {"id": c["id"], "rows": 0, "bad": "", "note": "not judged"} for c in part})
            elif part:
                got.update(self.verdicts(module, cfg, part, workers))
        return got


def tlc_error(out):
    m = re.search(r"Error: (.*?)(?:\n\n|Error: The behavior|$)", out, re.S)
    return " ".join((m.group(1) if m else out[-300:]).split())[:300]


def tagged(out, tag):
    for line in out.split("\n"):
        if line.startswith('"' + tag + " "):
            yield json.loads(json.loads(line)[len(tag) + 1:])
        elif line.startswith(tag + " "):
            yield json.loads(line[len(tag) + 1:])


CONF_CFG = "SPECIFICATION Spec\nINVARIANT Verdict\nCHECK_DEADLOCK FALSE\n"
