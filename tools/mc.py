"""Exhaustive exploration of the specification (MCEngine) on small random programs."""
import json, os, random, re, shutil, sys, tempfile
import gen
from vlib import Scenario, CheckError, SPEC, tlc, tlc_stats, JOBS


def case(rng, cid, mode=None, rna=0.2, conds=None, throws=0.0, ops=None, clients=None, flips=None, ticks=1, direct=1, faults=0):
    """One case: a small net and one or two short client programs."""
    s = Scenario(cid)
    mode = mode or rng.choice(gen.MODES)
    s.new(mode)
    conds = rng.randint(0, 1) if conds is None else conds
    net = gen.Net(rng, s, np=rng.randint(2, 3), nt=rng.randint(1, 2), acts=rng.randint(0, 2), conds=conds, rna=rna,
                  w=0.2, wmax=2, tok=rng.randint(0, 2), inputs=0.7, direct=direct)
    setup = [{"op": o, "a": a} for o, a in (s.ops[i] for i in sorted(s.ops))]
    ops = ops or {"inc": 6, "exec": 2, "stop": 2, "tok": 1, "running": 1, "place": 1, "trans": 1, "addarc": 1, "rmarc": 1,
                  "clear": 1, "setmode": 1, "del": 1, "setsleep": 0.3}
    progs = []
    n = clients or rng.choice([1, 1, 2])
    for c in range(n):
        prog = []
        if c == 0:
            prog.append(("exec", {"log": False, "st": 0}))
        for _ in range(rng.randint(1, 4 - n)):
            o = rng.choices(list(ops), list(ops.values()))[0]
            if o == "del" and c > 0:
                o = "inc"
            if o in ("inc", "tok"):
                a = {"p": rng.choice(net.places)}
            elif o == "exec":
                a = {"log": False, "st": 0}
            elif o == "place":
                a = dict(p=rng.choice(["P0", "N"]), tok=1, inp=True, enN="", en=rng.choice([""] + net.fn), exN="", ex="")
            elif o == "trans":
                p, r = rng.sample(net.places, 2)
                p, r = sorted((p, r))
                a = dict(t=rng.choice(["T0", "X"]), rna=False, act=[[p, 1]], dst=[[r, 1]], inh=[], cn=[], cf=[])
            elif o in ("addarc", "rmarc"):
                a = dict(p=rng.choice(net.places[:-1]), t="T0", k=rng.choice("AI" if o == "addarc" else "DI"), w=1)
            elif o == "setmode":
                a = {"mode": rng.choice(gen.MODES)}
            elif o == "setsleep":
                a = {"v": 50}
            else:
                a = {"_": 0}
            prog.append((o, a))
            if o == "del":
                break
        progs.append([{"op": o, "a": a} for o, a in prog])
    return dict(tid=cid, conds=[[f, bool(x[1])] for f, x in s.fns.items() if x[0] == "c"],
                throws=[f for f in s.fns if rng.random() < throws],
                flips=(1 if conds and flips is None else flips or 0), ops=setup, progs=progs, ticks=ticks, faults=faults)


def job_case(rng, cid):
    """Programs of one or two users of a job queue."""
    progs, n = [], rng.choice([1, 2])
    for c in range(n):
        prog = []
        for i in range(rng.randint(2, 5 if n == 1 else 3)):
            o = rng.choice(["jadd", "jadd", "jact", "jdeact", "jisact"])
            prog.append({"op": o, "f": "f%d%d" % (c, i)})
        if c == 0 and rng.random() < 0.4:
            prog.append({"op": "jdel", "f": ""})
        progs.append(prog)
    return dict(tid=cid, progs=progs, adder="f00")


def run(cases, cfg="MCEngine.cfg", module="MCEngine.tla", timeout=600, workers=JOBS, heap="8g", limit=10**7):
    """Explore the cases, up to limit states; returns (states generated, distinct states)."""
    tmp = tempfile.mkdtemp(prefix="vmc-")
    try:
        path = tmp + "/mc.json"
        with open(path, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        rc, out = tlc(module, cfg, {"MC": path, "MCLIMIT": str(limit)}, timeout=timeout, workers=workers, heap=heap)
        if "No error has been found" not in out:
            raise CheckError("the specification violates a property:\n" + out[-6000:])
        return tlc_stats(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def names(cfg):
    with open(os.path.join(SPEC, cfg)) as f:
        return re.findall(r"\b[A-Z]\w+", " ".join(re.findall(r"^(?:INVARIANTS|PROPERTIES) (.*)$", f.read(), re.M)))


def explore(pid, opts, n, limit, tier):
    """Explore the specification for a property's kind of programs: (transitions, states, what was checked)."""
    rng = random.Random("mc" + pid)
    if pid == "C30":
        r = run([job_case(rng, "j%d" % i) for i in range(n)], "MCJobQueue.cfg", "MCJobQueue.tla", limit=limit)
        return r + (names("MCJobQueue.cfg"),)
    cases = [case(rng, "m%d" % i, **{k: (v(rng) if callable(v) else v) for k, v in opts.items()}) for i in range(n)]
    r = run(cases, limit=limit)
    what = names("MCEngine.cfg")
    if tier == "thorough":      # liveness of the smaller cases
        l = run(cases[:20], "MCLive.cfg", limit=limit // 5)
        r = (r[0] + l[0], r[1] + l[1])
        what += names("MCLive.cfg")
    return r + (what,)


if __name__ == "__main__":
    import time
    seed, n = int(sys.argv[1]), int(sys.argv[2])
    kw = eval(sys.argv[3]) if len(sys.argv) > 3 else {}
    cfg = kw.pop("cfg", "MCEngine.cfg")
    limit = kw.pop("limit", 10**7)
    rng = random.Random(seed)
    t = time.time()
    if cfg == "MCJobQueue.cfg":
        print(run([job_case(rng, "m%d" % i) for i in range(n)], cfg, "MCJobQueue.tla"), time.time() - t)
        sys.exit()
    print(run([case(rng, "m%d" % i, **kw) for i in range(n)], cfg, limit=limit), time.time() - t)
