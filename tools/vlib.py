"""Common machinery: build the runner, describe scenarios, record executions of the real
code, convert them to traces and check them against the TLA+ specification with TLC."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, zlib
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = 8


class CheckError(Exception):
    """The check itself could not do its work (exit status 2)."""


# ------------------------------------------------------------------ build
def _sources():
    out = []
    for base, _, files in os.walk(os.path.join(REPO, "PTN_Engine")):
        out += [os.path.join(base, f) for f in files if f.endswith((".cpp", ".h", ".hpp"))]
    out += [os.path.join(VERIF, "harness", f) for f in os.listdir(os.path.join(VERIF, "harness"))]
    return sorted(out)


def build():
    h = hashlib.sha256()
    for f in _sources():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    key = h.hexdigest()[:16]
    root = os.path.join(VERIF, "build")
    out = os.path.join(root, key)
    runner = os.path.join(out, "runner")
    if os.path.exists(os.path.join(out, "done")):
        return runner
    os.makedirs(root, exist_ok=True)
    for d in os.listdir(root):  # keep few old builds
        p = os.path.join(root, d)
        if os.path.isdir(p) and time.time() - os.path.getmtime(p) > 3600:
            shutil.rmtree(p, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=root)
    r = subprocess.run(["make", "-s", "-C", os.path.join(VERIF, "harness"), "-j%d" % JOBS, "OUT=" + tmp,
                        "REPO=" + REPO], capture_output=True, text=True)
    if r.returncode != 0:
        shutil.rmtree(tmp, ignore_errors=True)
        raise CheckError("build failed:\n" + r.stdout[-2000:] + r.stderr[-4000:])
    open(os.path.join(tmp, "done"), "w").close()
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return runner


# ------------------------------------------------------------------ scenarios
def enc(s):
    """Percent-encode a name for the scenario language."""
    b = s.encode("utf-8")
    if not b:
        return "%e"
    return "".join(chr(c) if (48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122 or c in b"_.")
                   else "%%%02X" % c for c in b)


class Scenario:
    """A program for the runner.  Threads are lists of operations; op() returns its number."""

    def __init__(self, cid, seq=False, big=False, **cfg):
        self.cid, self.seq, self.big = cid, seq, big
        self.module, self.tracecfg = "EngineTrace.tla", None
        self.cfg = dict(policy=2, mem=0, race=1)
        self.cfg.update(cfg)
        self.fns = {}       # id -> (kind, init, throwOn, body)
        self.threads = {0: []}
        self.ops = {}       # op number -> (op, a) for the specification
        self.raw = {}       # op number -> text
        self.n = 0
        self.runs, self.seed0 = 1, 1
        self.files = {}     # slot -> content known when written
        self.g = 0          # the engine the next operations are performed on, the next functions belong to
        self.many = False   # several engines
        self.opg, self.fng = {}, {}
        self.held = False   # observe which functions are held when all is done

    # -- functions
    def fid(self, f):
        """Function f of the current engine: every engine has functions of its own."""
        return "g%d%s" % (self.g, f) if self.g and f else f

    def act(self, f, throw=0, body=()):
        self.fns[self.fid(f)] = ["a", 1, throw, list(body)]
        self.fng[self.fid(f)] = self.g
        return f

    def cond(self, f, init=True, throw=0):
        self.fns[self.fid(f)] = ["c", 1 if init else 0, throw, []]
        self.fng[self.fid(f)] = self.g
        return f

    def num(self, v):
        if self.big:
            return [(v >> (16 * i)) & 0xFFFF for i in range(4)]
        return v if v < 2**30 else 2**30

    def _add(self, th, text, op=None, a=None):
        self.n += 1
        line = "%d %s%s" % (self.n, "@%d " % self.g if self.g else "", text)
        if self.g:
            self.many = True
        self.opg[self.n] = self.g
        (th if isinstance(th, list) else self.threads.setdefault(th, [])).append(line)
        if op:
            self.ops[self.n] = (op, a if a is not None else {"_": 0})
        self.raw[self.n] = text
        return self.n

    # -- harness operations
    def h(self, text, th=0):
        return self._add(th, text)

    # -- API operations
    def new(self, mode, th=0):
        return self._add(th, "new " + mode, "new", {"mode": mode})

    def newdefault(self, th=0):
        return self._add(th, "newdefault", "new", {"mode": "JOB_QUEUE"})

    def place(self, p, tok=0, inp=True, enN="", en="", exN="", ex="", th=0):
        en, ex = self.fid(en), self.fid(ex)
        return self._add(th, "place %s %d %d %s %s %s %s" % (enc(p), tok, inp, enc(enN), en or "-", enc(exN), ex or "-"),
                         "place", {"p": p, "tok": self.num(tok), "inp": bool(inp), "enN": enN, "en": en, "exN": exN,
                                   "ex": ex})

    def trans(self, t, act=(), dst=(), inh=(), cn=(), cf=(), rna=False, th=0):
        cf = [self.fid(c) for c in cf]

        def al(arcs):
            return "%d %s" % (len(arcs), " ".join("%s %d" % (enc(p), w) for p, w in arcs))

        def ar(arcs):
            return [[p, self.num(w)] for p, w in arcs]
        act, dst, inh = [[(a if isinstance(a, tuple) else (a, 1)) for a in x] for x in (act, dst, inh)]
        text = "trans %s %d %s %s %s %d %s %d %s" % (
            enc(t), rna, al(act), al(dst), al(inh), len(cn), " ".join(enc(c) for c in cn), len(cf), " ".join(c or "-" for c in cf))
        return self._add(th, text, "trans", {"t": t, "rna": bool(rna), "act": ar(act), "dst": ar(dst), "inh": ar(inh),
                                             "cn": list(cn), "cf": list(cf)})

    def addarc(self, p, t, k, w=1, th=0):
        return self._add(th, "addarc %s %s %s %d" % (enc(p), enc(t), k, w), "addarc",
                         {"p": p, "t": t, "k": k, "w": self.num(w)})

    def rmarc(self, p, t, k, w=1, th=0):
        return self._add(th, "rmarc %s %s %s %d" % (enc(p), enc(t), k, w), "rmarc", {"p": p, "t": t, "k": k})

    def regact(self, n, f, th=0):
        f = self.fid(f)
        return self._add(th, "regact %s %s" % (enc(n), f or "-"), "regact", {"n": n, "f": f})

    def regcond(self, n, f, th=0):
        f = self.fid(f)
        return self._add(th, "regcond %s %s" % (enc(n), f or "-"), "regcond", {"n": n, "f": f})

    def exec(self, log=False, th=0):
        # the runs of a scenario take turns in using two streams
        self.nexec = getattr(self, "nexec", 0) + 1
        return self._add(th, "exec %d %d" % (bool(log), self.nexec % 2), "exec", {"log": bool(log), "st": self.nexec % 2})

    def inc(self, p, th=0):
        return self._add(th, "inc " + enc(p), "inc", {"p": p})

    def tok(self, p, th=0):
        return self._add(th, "tok " + enc(p), "tok", {"p": p})

    def setmode(self, m, th=0):
        return self._add(th, "setmode " + m, "setmode", {"mode": m})

    def setsleep(self, v, th=0):
        return self._add(th, "setsleep %d" % v, "setsleep", {"v": v})

    def simple(self, op, th=0):   # stop running getmode getsleep clear props print del
        return self._add(th, op, op)

    def stop(self, th=0):
        return self.simple("stop", th)

    def props(self, th=0):
        return self.simple("props", th)

    def export(self, slot, k=0, th=0):
        return self._add(th, "export %s %d" % (slot, k), "export", {"slot": slot})

    def exportbad(self, how, th=0):
        return self._add(th, "exportbad " + how, "exportbad")

    def writefile(self, slot, content, th=0):
        return self._add(th, "writefile %s %s" % (slot, enc(content)), "writefile", {"slot": slot, "content": content})

    def imp(self, slot, th=0):
        # some scenarios use one importer for everything they import
        one = th == 0 and zlib.crc32(self.cid.encode()) % 2
        return self._add(th, "import %s %d" % (slot, one), "import", {"slot": slot})

    def sleep(self, ms, th=0):
        return self.h("sleep %d" % ms, th)

    def setc(self, f, v, th=0):
        return self.h("setc %s %d" % (self.fid(f), v), th)

    def spawn(self, k, th=0):
        self.threads.setdefault(k, [])
        return self.h("spawn %d" % k, th)

    def join(self, k, th=0):
        return self.h("join %d" % k, th)

    def finish(self, th=0):
        """The usual end: destroy the engine, wait for everything it left behind."""
        self.simple("del", th)
        self.h("drain", th)

    # job queue
    def jop(self, op, f=None, th=0):
        f = self.fid(f)
        return self._add(th, op + (" " + f if f else ""), op, {"f": f or ""})

    def text(self):
        o = ["CASE " + self.cid, "CFG " + " ".join("%s=%s" % kv for kv in self.cfg.items()),
             "RUNS %d %d" % (self.runs, self.seed0)]
        for f, (k, init, thr, body) in self.fns.items():
            o.append("FN %s %s %d %d" % (k, f, init, thr))
            o += body
            o.append("END")
        for k, ops in self.threads.items():
            o.append("THREAD %d" % k)
            o += ops
            o.append("END")
        o.append("ENDCASE")
        return "\n".join(o) + "\n"

    def body(self, f):
        """The list of operations of action f (pass it as th)."""
        return self.fns[self.fid(f)][3]


# ------------------------------------------------------------------ recording
def record(runner, scens, runs, seed0=1, timeout=600, spread=False):
    """Run every scenario runs times; returns [(scenario, seed, raw events)].
    spread: every scenario has seeds of its own."""
    tmp = tempfile.mkdtemp(prefix="vrun-")
    try:
        parts = [scens[i::JOBS] for i in range(JOBS)]
        byid = {s.cid: s for s in scens}
        if len(byid) != len(scens):
            raise CheckError("duplicate scenario id")

        def one(i):
            if not parts[i]:
                return ""
            d = os.path.join(tmp, str(i))
            os.mkdir(d)
            with open(d + "/in.txt", "w") as f:
                for s in parts[i]:
                    s.runs, s.seed0 = (s.fixed_runs if hasattr(s, "fixed_runs") else runs), seed0
                    if spread:
                        s.seed0 = seed0 + zlib.crc32(s.cid.encode()) % 10**6
                    f.write(s.text())
            try:
                r = subprocess.run([runner, d + "/in.txt", d + "/out.txt", d], capture_output=True, text=True,
                                   timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError("runner timed out")
            if r.returncode != 0:
                raise CheckError("runner failed: " + r.stderr[-500:])
            return d + "/out.txt"
        with ThreadPoolExecutor(JOBS) as ex:
            outs = list(ex.map(one, range(JOBS)))
        res = []
        for o in outs:
            if not o:
                continue
            cur = None
            with open(o, encoding="utf-8", errors="surrogateescape") as f:
                for line in f:
                    e = json.loads(line)
                    if e["e"] == "run":
                        cur = (byid[e["case"]], e["seed"], [])
                        res.append(cur)
                    else:
                        cur[2].append(e)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ conversion
PLAIN = re.compile(r"[A-Za-z0-9_.]{0,40}$")


class Names:
    """Maps arbitrary names to plain ones, injectively, per trace."""

    def __init__(self):
        self.m = {}

    def __call__(self, s):
        if PLAIN.match(s):
            return s
        return self.m.setdefault(s, "~%d" % len(self.m))


def parse_file(sc, content, nm):
    """The operations an import of this file content means: ({op,a}..., bad)."""
    ops = []
    bad = [False]

    class Bad(Exception):
        pass

    def size(s):
        if not re.match(r"[0-9]+$", s) or int(s) >= 2**64:
            raise Bad()
        return sc.num(int(s))

    def boolean(s):
        if s not in ("true", "false"):
            raise Bad()
        return s == "true"

    def val(e, tag):
        c = e.find(tag)
        return "" if c is None else c.get("value", "")

    def arcs(e, tag):
        c = e.find(tag)
        return [[nm(x.get("name", "")), size(x.get("weight", "") or "1")] for x in (c if c is not None else [])]
    try:
        try:
            root = ET.fromstring(content)
        except (ET.ParseError, ValueError):
            raise Bad()
        if root.tag != "PTN-Engine":
            raise Bad()
        mode = root.get("actionsThreadOption", "")
        if mode not in ("SINGLE_THREAD", "EVENT_LOOP", "DETACHED", "JOB_QUEUE"):
            raise Bad()
        ops.append({"op": "setmode", "a": {"mode": mode}})
        for e in root.findall("./Places/*"):
            ops.append({"op": "place", "a": {
                "p": nm(e.get("name", "")), "tok": size(e.get("tokens", "") or "0"), "inp": e.get("input", "") == "true",
                "enN": nm(e.get("onEnterAction", "")), "en": "", "exN": nm(e.get("onExitAction", "")), "ex": ""}})
        for e in root.findall("./Transitions/*"):
            c = e.find("ActivationConditions")
            ops.append({"op": "trans", "a": {
                "t": nm(val(e, "Name")), "rna": boolean(val(e, "RequireNoActionsInExecution")),
                "act": arcs(e, "ActivationPlaces"), "dst": arcs(e, "DestinationPlaces"),
                "inh": arcs(e, "InhibitorPlaces"),
                "cn": [nm(x.get("name", "")) for x in (c if c is not None else [])], "cf": []}})
        for e in root.findall("./Arcs/*"):
            k = {"Activation": "A", "Destination": "D", "Inhibitor": "I", "Bidirectional": "B"}.get(val(e, "Type"))
            if k is None:
                raise Bad()
            ops.append({"op": "addarc", "a": {"p": nm(val(e, "Place")), "t": nm(val(e, "Transition")),
                                              "w": size(val(e, "Weight")), "k": k}})
    except Bad:
        bad[0] = True
    return ops, bad[0]


def parse_export(sc, content, nm):
    """What an exported file says, as rows (arcs in file order per transition and type)."""
    ops, bad = parse_file(sc, content, nm)
    if bad or not ops:
        return None
    pl, tr, idx = [], [], {}
    for o in ops[1:]:
        a = o["a"]
        if o["op"] == "place":
            pl.append([a["p"], a["tok"], a["inp"], a["enN"], a["exN"]])
        elif o["op"] == "trans":
            row = [a["t"], a["rna"], list(a["act"]), list(a["dst"]), list(a["inh"]), a["cn"]]
            tr.append(row)
            idx[a["t"]] = row
        else:
            row = idx.get(a["t"])
            if row is None:
                return None
            if a["k"] in "AB":
                row[2].append([a["p"], a["w"]])
            if a["k"] in "DB":
                row[3].append([a["p"], a["w"]])
            if a["k"] == "I":
                row[4].append([a["p"], a["w"]])
    return {"mode": ops[0]["a"]["mode"], "pl": pl, "tr": tr}


def parse_print(sc, text, nm):
    if not text.startswith("Place; Tokens\n") or not text.endswith("\n\n\n"):
        return None
    rows = []
    for line in text[len("Place; Tokens\n"):-2].split("\n")[:-1]:
        m = re.match(r"(.*): ([0-9]+)$", line, re.S)
        if not m:
            return None
        rows.append([nm(m.group(1)), sc.num(int(m.group(2)))])
    return rows


def conv_args(a, nm):
    if isinstance(a, str):
        return nm(a)
    if isinstance(a, list):
        return [conv_args(x, nm) for x in a]
    if isinstance(a, dict):
        return {k: conv_args(v, nm) for k, v in a.items()}
    return a


def convert(sc, raw, g=None):
    """Raw events of one run -> events of the specification; of engine g only, if given: the calls it is the object
    of, the functions it calls, and what concerns all engines."""
    nm = Names()
    out = []
    files = {}
    for e in raw:
        ev = []
        _convert(sc, e, nm, ev, files, g)
        k = e["e"]
        if g is not None:
            if k in ("call", "ret"):
                if sc.opg[e["op"]] != g:
                    continue
            elif k in ("log", "nothread"):
                if e["g"] != g:
                    continue
            elif "f" in e:
                if sc.fng[e["f"]] != g:
                    continue
        out += ev
    return out


def _convert(sc, e, nm, ev, files, g):
    k = e["e"]
    if k == "call":
        op, a = sc.ops[e["op"]]
        if op == "writefile":
            files[a["slot"]] = a["content"]
            return
        if op == "import":
            ops, bad = parse_file(sc, files[a["slot"]], nm) if a["slot"] in files else ([], True)
            a = {"ops": ops, "bad": bad}
        elif op == "export":
            a = {"_": 0}
        else:
            a = conv_args(a, nm)
        ev.append({"e": "call", "th": e["th"], "op": op, "a": a})
    elif k == "ret":
        op, a = sc.ops[e["op"]]
        v = e.get("v")
        x = e["x"]
        if op == "writefile":
            return
        if op == "tok":
            v = sc.num(int(v)) if v is not None else sc.num(0)
        elif op == "running" or op == "jisact":
            v = bool(v)
        elif op == "print":
            v = parse_print(sc, v, nm) if v is not None else []
        elif op == "props":
            v = props_rows(sc, v, nm) if v is not None else {"pl": [], "tr": []}
        elif op == "export":
            if x == "":
                files[a["slot"]] = v
                v = parse_export(sc, v, nm)
            else:
                v = {"mode": "", "pl": [], "tr": []}
        elif op == "getmode":
            v = v or ""
        elif op == "getsleep":
            v = v or 0
        else:
            v = 0
        if v is None:
            ev.append({"e": "badresult", "op": op})
        else:
            ev.append({"e": "ret", "th": e["th"], "x": x, "v": v})
    elif k == "condb":
        ev.append({"e": k, "th": e["th"], "f": e["f"]})
    elif k == "cond":
        ev.append({"e": "cond", "th": e["th"], "f": e["f"], "v": bool(e["v"]), "x": bool(e["x"])})
    elif k == "actb":
        ev.append({"e": "actb", "th": e["th"], "f": e["f"]})
    elif k == "acte":
        ev.append({"e": "acte", "th": e["th"], "f": e["f"], "x": bool(e["x"])})
    elif k == "nothread":
        ev.append({"e": k, "th": e["th"]})
    elif k == "setc":
        ev.append({"e": "setc", "th": e["th"], "f": e["f"], "v": bool(e["v"])})
    elif k == "tick":
        t = {"e": "tick", "now": e["now"], "forced": bool(e["forced"])}
        ev.append(t)
    elif k == "log":
        v = parse_print(sc, e["v"], nm)
        ev.append({"e": "badresult", "op": "log"} if v is None else {"e": "log", "th": e["th"], "st": e["st"], "v": v})
    elif k == "drained":
        ev.append({"e": "drained", "left": e["left"],
                   "held": [f for f in e["held"] if g is None or sc.fng[f] == g] if sc.held else []})
    elif k == "end":
        pass
    else:
        ev.append({"e": k, "why": str(e.get("why", ""))[:100]})


def props_rows(sc, v, nm):
    def arcs(t, key, ty):
        r = []
        for p, w, k, tn in t[key]:
            if k != ty or tn != t["name"]:
                return None
            r.append([nm(p), sc.num(int(w))])
        return r
    pl = [[nm(p["name"]), sc.num(int(p["tok"])), bool(p["input"]), nm(p["en"]), p["ef"], nm(p["xn"]), p["xf"]]
          for p in v["places"]]
    tr = []
    for t in v["trans"]:
        a, d, i = arcs(t, "act", "A"), arcs(t, "dst", "D"), arcs(t, "inh", "I")
        if a is None or d is None or i is None:
            return None
        tr.append([nm(t["name"]), bool(t["rna"]), a, d, i, [nm(c) for c in t["cn"]], t["cf"]])
    return {"pl": pl, "tr": tr}


# ------------------------------------------------------------------ TLC
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"


def tlc_classpath():
    global _cp
    try:
        return _cp
    except NameError:
        pass
    cp = [TLA_JAR]
    d = os.path.dirname(TLA_JAR)
    for f in sorted(os.listdir(d)):
        if f.endswith(".jar") and f != os.path.basename(TLA_JAR):
            cp.append(os.path.join(d, f))
    _cp = ":".join(cp)
    return _cp


def tlc(module, cfg, env=None, workers=JOBS, extra=(), timeout=600, heap="8g", props=(), fast=True):
    """Run TLC; returns (exit status, output)."""
    meta = tempfile.mkdtemp(prefix="vtlc-")
    try:
        cmd = ["java"] + (["-XX:+UseSerialGC"] + FASTJVM if workers == 1 and fast else ["-XX:+UseParallelGC"]) + ["-Xmx" + heap, "-Xss64m", "-Dtlc2.TLC.ide=verif"]
        cmd += list(props) + ["-cp", tlc_classpath(), "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
                              "-workers", str(workers), "-config", cfg] + list(extra) + [module]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        return r.returncode, r.stdout + r.stderr
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


class Trace:
    __slots__ = ("sc", "seed", "ev", "raw", "n", "g")

    def __init__(self, sc, seed, ev, raw, g=None):
        self.sc, self.seed, self.ev, self.raw, self.n, self.g = sc, seed, ev, raw, 1, g


def make_traces(recs):
    """Convert and merge runs that produced the same events."""
    seen, out = {}, []
    for sc, seed, raw in recs:
        for g in sorted(set(sc.opg.values())) if sc.many else [None]:
            ev = convert(sc, raw, g)
            key = (sc.cid, g, json.dumps(ev, sort_keys=True))
            if key in seen:
                seen[key].n += 1
            else:
                t = Trace(sc, seed, ev, raw, g)
                seen[key] = t
                out.append(t)
    return out


def jobs_ahead(t):
    """The actions begun in a trace of one engine always in JOB_QUEUE mode, in their order, and how many begin
    before each event: what is queued must begin in that order, which tells the search about wrong guesses early."""
    news = [e for e in t.ev if e["e"] == "call" and e["op"] == "new"]
    if len(news) != 1 or news[0]["a"].get("mode") != "JOB_QUEUE":
        return [], []
    if any(e["e"] == "call" and e["op"] in ("setmode", "import") for e in t.ev):
        return [], []
    jq, jn = [], []
    for e in t.ev:
        jn.append(len(jq))
        if e["e"] == "actb":
            jq.append(e["f"])
    return jq, jn + [len(jq)]


def _write_traces(path, traces, ahead=True):
    with open(path, "w") as f:
        for i, t in enumerate(traces):
            conds = [[fid, bool(x[1])] for fid, x in t.sc.fns.items()
                     if x[0] == "c" and (t.g is None or t.sc.fng[fid] == t.g)]
            jq, jn = jobs_ahead(t) if ahead else ([], [])
            f.write(json.dumps({"tid": i, "conds": conds, "ev": t.ev, "jq": jq, "jn": jn}) + "\n")


def cfg_of(t):
    return t.sc.tracecfg or "Trace%s%s.cfg" % ("Big" if t.sc.big else "Int", "Seq" if t.sc.seq else "Conc")


LIMIT = 10000     # states explored for one trace before it is left undecided
FASTJVM = ["-XX:TieredStopAtLevel=1"]      # many short searches: compiling well takes longer than it saves
DFS = ("-Dtlc2.tool.queue.IStateQueue=StateDeque",)


class Result:
    """Outcome of validating traces: rejected and undecided traces, states and transitions explored."""

    def __init__(self):
        self.rejected, self.undecided, self.states, self.transitions, self.accepted = [], [], 0, 0, 0


def validate(traces, module=None, cfg=None, timeout=600, limit=LIMIT):
    """Check traces against the specification."""
    res = Result()
    groups = {}
    for t in traces:
        groups.setdefault((module or t.sc.module, cfg or cfg_of(t)), []).append(t)
    batches = []
    for c, ts in sorted(groups.items(), key=lambda g: -len(g[1])):
        n = max(1, min(JOBS, len(ts) // 12, round(JOBS * len(ts) / len(traces))))
        # spread the traces of one scenario over the batches
        batches += [(c[0], c[1], ts[i::n]) for i in range(n)]

    def one(b):
        module, c, ts = b
        tmp = tempfile.mkdtemp(prefix="vtr-")
        try:
            path = tmp + "/traces.json"
            _write_traces(path, ts)
            rc, out = tlc(module, c, {"TRACES": path, "LIMIT": str(limit)}, timeout=timeout, workers=1, heap="2g",
                          props=DFS, fast=limit <= LIMIT)
            if "No error has been found" not in out:
                if "TLC threw an unexpected exception" not in out and "Attempted to" not in out and len(ts) == 1:
                    raise CheckError("TLC failed on %s:\n%s" % (c, out[-3000:]))
                if len(ts) == 1:    # an observation of a kind the specification knows nothing of
                    return set(), set(), (0, 0), ts
                h = len(ts) // 2
                (a1, u1, (g1, d1), _), (a2, u2, (g2, d2), _) = one((module, c, ts[:h])), one((module, c, ts[h:]))
                return a1 | {x + h for x in a2}, u1 | {x + h for x in u2}, (g1 + g2, d1 + d2), ts
            acc = {int(x) for x in re.findall(r'<<"ACCEPTED", (\d+), \d+>>', out)}
            und = {int(x) for x in re.findall(r'<<"UNDECIDED", (\d+)>>', out)} - acc
            return acc, und, tlc_stats(out), ts
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    with ThreadPoolExecutor(JOBS) as ex:
        for acc, und, (g, d), ts in ex.map(one, batches):
            res.transitions += g
            res.states += d
            res.accepted += len(acc)
            res.undecided += [t for i, t in enumerate(ts) if i in und]
            res.rejected += [t for i, t in enumerate(ts) if i not in acc and i not in und]
    return res


def diagnose(t, module=None, cfg=None, limit=LIMIT):
    """How many events of a rejected trace could be matched."""
    module = module or t.sc.module
    tmp = tempfile.mkdtemp(prefix="vtr-")
    try:
        path = tmp + "/traces.json"
        _write_traces(path, [t], ahead=False)
        c = cfg or cfg_of(t)
        with open(os.path.join(SPEC, c)) as f:
            text = f.read().replace("INVARIANT Report", "INVARIANT Report Progress")
        dc = tmp + "/diag.cfg"
        with open(dc, "w") as f:
            f.write(text)
        rc, out = tlc(module, dc, {"TRACES": path, "LIMIT": str(limit)}, workers=1, props=DFS)
        if "No error has been found" not in out and "Attempted to" not in out and \
                "TLC threw an unexpected exception" not in out:
            raise CheckError("TLC failed:\n%s" % out[-3000:])
        return max([int(x) for x in re.findall(r'<<"MATCHED", \d+, (\d+)>>', out)] or [0]), \
            "ACCEPTED" in out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
