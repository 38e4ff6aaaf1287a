"""Scenario generators.  Every function takes a random.Random and returns a Scenario."""
import re

from vlib import Scenario

SYNC = ("SINGLE_THREAD", "EVENT_LOOP")
ASYNC = ("JOB_QUEUE", "DETACHED")
MODES = SYNC + ASYNC
LOOP = ("EVENT_LOOP", "JOB_QUEUE", "DETACHED")


class Net:
    """A random net without infinite firing sequences: every transition consumes from a place and
    produces only in later places, apart from places it puts back exactly what it takes from."""

    def __init__(self, rng, sc, np=4, nt=3, acts=2, conds=1, inh=0.3, bidi=0.2, rna=0.0, w=0.2, exits=0.4, tok=2,
                 inputs=0.6, body=None, direct=0.5, wmax=3, slow=0.0):
        self.sc = sc
        self.places, self.trans, self.conds, self.inputs = [], [], [], []
        self.defs = []
        fn = []
        for i in range(acts):
            f = "a%d" % (i + 1)
            sc.act(f)
            fn.append(f)
            if body:
                body(rng, sc, f)
        for i in range(conds):
            c = "c%d" % (i + 1)
            sc.cond(c, rng.random() < 0.7)
            slow_cond(rng, sc, c, slow)
            self.conds.append(c)
        self.fn = fn
        named = {}
        for f in fn:
            if rng.random() > direct:
                sc.regact("n" + f, f)
                named[f] = "n" + f
        cnamed = {}
        for c in self.conds:
            if rng.random() > direct:
                sc.regcond("n" + c, c)
                cnamed[c] = "n" + c
        for i in range(np):
            p = "P%d" % i
            kw = {}
            if fn and rng.random() < 0.6:
                f = rng.choice(fn)
                if f in named:
                    kw["enN"] = named[f]
                else:
                    kw["en"] = f
            if fn and rng.random() < exits:
                f = rng.choice(fn)
                if f in named:
                    kw["exN"] = named[f]
                else:
                    kw["ex"] = f
            inp = i == 0 or rng.random() < inputs
            t = rng.randint(0, tok) if i < np - 1 else 0
            if inp:
                self.inputs.append(p)
            self.places.append(p)
            self.defs.append((p, t, inp, kw))
            sc.place(p, t, inp, **kw)
        for j in range(nt):
            i = rng.randrange(np - 1)

            def weight():
                return 1 if rng.random() > w else rng.randint(2, wmax)
            act = [("P%d" % i, weight())]
            used = {i}
            if rng.random() < 0.3:
                k = rng.randrange(np - 1)
                if k not in used:
                    act.append(("P%d" % k, weight()))
                    used.add(k)
            lo = max(used)
            dst = []
            if lo < np - 1:
                for k in rng.sample(range(lo + 1, np), rng.randint(1, min(2, np - 1 - lo))):
                    dst.append(("P%d" % k, weight() if rng.random() < 0.5 else 1))
            if rng.random() < bidi:
                ks = [k for k in range(np) if k not in used and "P%d" % k not in dict(dst)]
                if ks:
                    k = rng.choice(ks)
                    b = ("P%d" % k, weight())
                    act.insert(rng.randrange(len(act) + 1), b)
                    dst.insert(rng.randrange(len(dst) + 1), b)
            ih = []
            if rng.random() < inh:
                ks = [k for k in range(np) if "P%d" % k not in dict(act)]
                if ks:
                    ih.append(("P%d" % rng.choice(ks), rng.choice([1, 1, 1, 2])))
            cs = [c for c in self.conds if rng.random() < 0.4]
            kw = {}
            if cs:
                if all(c in cnamed for c in cs):
                    kw["cn"] = [cnamed[c] for c in cs]
                else:
                    kw["cf"] = cs
            t = "T%d" % j
            rng.shuffle(act)
            rng.shuffle(dst)
            self.trans.append(t)
            sc.trans(t, act, dst, ih, rna=rng.random() < rna, **kw)


def async_body(rng, sc, f, inc=None):
    """Random body of an action run asynchronously."""
    b = sc.body(f)
    r = rng.random()
    if r < 0.4:
        sc.sleep(rng.choice([1, 5, 30, 150]), th=b)
    elif r < 0.55:
        sc.h("yield", th=b)


def sync_body(rng, sc, f):
    if rng.random() < 0.3:
        sc.sleep(rng.choice([1, 5, 30]), th=sc.body(f))


def slow_cond(rng, sc, c, prob=0.25):
    """With some probability condition c takes its time."""
    if rng.random() < prob:
        b = sc.body(c)
        sc.h("yield", th=b) if rng.random() < 0.3 else sc.sleep(rng.choice([1, 30, 120, 250]), th=b)


def mk(cid, **kw):
    return Scenario(cid, **kw)


def cfgs(rng):
    """Scheduler configuration of one scenario."""
    r = rng.random()
    if r < 0.5:
        return dict(policy=2, mem=0)
    if r < 0.75:
        return dict(policy=2, mem=rng.choice([20, 100]))
    return dict(policy=rng.choice([0, 1]), switch=rng.choice([5, 20, 60]), depth=rng.randint(2, 5),
                len=rng.choice([200, 600, 1500]), force=rng.choice([0, 0, 20]), spurious=rng.choice([0, 50]))


# ---------------------------------------------------------------- sequential, SINGLE_THREAD
def seq_net(rng, cid, exits=0.4, big=False, log=False, reads=True, **nk):
    s = mk(cid, seq=True, policy=0)
    s.new("SINGLE_THREAD")
    o = dict(np=rng.randint(3, 5), nt=rng.randint(2, 4), acts=rng.randint(0, 3), conds=rng.randint(0, 2), exits=exits)
    o.update(nk)
    n = Net(rng, s, **o)
    if log and rng.random() < 0.3:
        s.simple("print")
    for _ in range(rng.randint(1, 3)):
        s.exec(log=log and rng.random() < 0.8)
        if reads:
            rng.choice([lambda: s.props(), lambda: s.simple("print"),
                        lambda: [s.tok(p) for p in rng.sample(n.places, 2)]])()
        for _ in range(rng.randint(0, 2)):
            s.inc(rng.choice(n.inputs))
        if n.conds and rng.random() < 0.6:
            s.setc(rng.choice(n.conds), rng.randint(0, 1))
    s.exec(log=log)
    s.props()
    s.simple("running")
    s.finish()
    return s


# ---------------------------------------------------------------- concurrent
def conc_net(rng, cid, mode=None, clients=None, reads=0.3, stops=0.2, log=0.0, rna=0.0, setc=0.3, setsleep=0.0,
             timing=False, ops=None, **nk):
    mode = mode or rng.choice(LOOP)
    s = mk(cid, **cfgs(rng))
    s.new(mode)
    o = dict(np=rng.randint(3, 4), nt=rng.randint(2, 3), acts=rng.randint(1, 2), conds=rng.randint(0, 1), tok=1,
             body=async_body if mode in ASYNC else sync_body, rna=rna, w=0.15, slow=0.25)
    o.update(nk)
    n = Net(rng, s, **o)
    s.exec(log=rng.random() < log)
    k = clients if clients is not None else rng.randint(1, 2)

    def op(th):
        r = rng.random()
        if r < reads:
            x = rng.random()
            if x < 0.6:
                s.tok(rng.choice(n.places), th=th)
            elif x < 0.75:
                s.simple("print", th)
            elif x < 0.9:
                s.props(th)
            else:
                s.simple(rng.choice(["running", "getmode", "getsleep"]), th)
        elif r < reads + setc * 0.3 and n.conds:
            s.setc(rng.choice(n.conds), rng.randint(0, 1), th=th)
        elif r < reads + setc * 0.3 + setsleep:
            s.setsleep(rng.choice([20, 100, 500, 5000]), th=th)
        elif r < reads + setc * 0.3 + setsleep + 0.08:
            s.sleep(rng.choice([1, 10, 99, 100, 101, 250]), th=th)
        else:
            s.inc(rng.choice(n.inputs), th=th)
    for c in range(1, k + 1):
        for _ in range(rng.randint(1, 3)):
            op(c)
    for c in range(1, k + 1):
        s.spawn(c)
    for _ in range(rng.randint(1, 2)):
        op(0)
    if rng.random() < stops:
        s.stop()
        for p in rng.sample(n.places, 1):
            s.tok(p)
        if rng.random() < 0.7:
            s.exec()
            op(0)
    for c in range(1, k + 1):
        s.join(c)
    s.sleep(rng.choice([0, 50, 150, 400]))
    for p in rng.sample(n.places, 2):
        s.tok(p)
    s.stop()
    s.simple("running")
    s.props()
    s.finish()
    return s


# ---------------------------------------------------------------- long edit sequences
WEIRD = ["a b", "x<y&z", "\"q\"'s'", "ünï→çødé", " lead", "trail ", "日本語", "&amp;", "<!--c-->", "]]>", "p/q\\r", "100%", "a\tb",
         "%e", "]", "place", "=", "name with  two spaces", " ", "p0", "P", "P00", "x" * 300, "P0 ", "nullptr", "0"]


class Editor:
    """Random API calls on one engine, valid and invalid ones, with enough of a model of the net to
    keep it free of infinite firing sequences."""

    def __init__(self, rng, s, mode, names="plain", anon=True, np=5, nt=4, big=False, acts=3, conds=2, fset=None):
        self.rng, self.s, self.mode = rng, s, mode
        self.anon = anon
        if names == "plain":
            self.pn = ["P%d" % i for i in range(np)]
            self.tn = ["T%d" % i for i in range(nt)]
            self.an = ["A%d" % i for i in range(acts)]
            self.cn = ["C%d" % i for i in range(conds)]
        else:
            w = rng.sample(WEIRD, 14)
            self.pn = (w[:3] + ["P%d" % i for i in range(np)])[:np]
            self.tn = (w[3:6] + ["P0", "T1", "T2"])[:nt]
            self.an = (w[6:8] + ["A1", "A2"])[:acts]
            self.cn = (w[8:10] + ["C1", "C2"])[:conds]
            rng.shuffle(self.pn)
        self.af = [s.act("a%d" % i) for i in range(acts)]
        self.cf = [s.cond("c%d" % i, rng.random() < 0.6) for i in range(conds)]
        self.ra, self.rc = {}, {}
        self.pl, self.tr = {}, {}     # name -> input; name -> dict(A=, D=, I=)
        self.running = False
        self.big = big

    def rank(self, p):
        return self.pn.index(p) if p in self.pn else 99

    def safe_t(self, t):
        eff = {}
        for p, w in t["A"]:
            if w == 0 and any(q == p for q, _ in t["D"]):
                return False
            eff[p] = eff.get(p, 0) - w
        for p, w in t["D"]:
            eff[p] = eff.get(p, 0) + w
        for p in sorted(eff, key=self.rank):
            if eff[p]:
                return eff[p] < 0
        return False

    def safe(self):
        return all(self.safe_t(t) for t in self.tr.values())

    def tokens(self):
        r = self.rng
        if self.big and r.random() < 0.6:
            return r.choice([2**64 - 1, 2**63, 2**63 - 1, 2**32, 2**64 - 2, r.randrange(2**64)])
        return r.choice([0, 0, 1, 1, 2, 3])

    def weight(self):
        r = self.rng
        if self.big and r.random() < 0.6:
            return r.choice([2**64 - 1, 2**63, 2**63 - 1, 2**32 + 1, r.randrange(1, 2**64)])
        return r.choice([1, 1, 1, 2, 3])

    def pick(self, pool, known, good=0.8):
        r = self.rng
        if known and r.random() < good:
            return r.choice(list(known))
        return r.choice(list(pool) + ["", "nope"]) if r.random() < 0.4 else r.choice(list(pool))

    # each returns True if the call was made
    def place(self, th=0):
        r = self.rng
        free = [p for p in self.pn if p not in self.pl]
        p = r.choice(free) if free and r.random() < 0.8 else r.choice(self.pn + [""])
        kw = {}
        for named, direct, prob in (("enN", "en", 0.55), ("exN", "ex", 0.4)):
            if r.random() < prob:
                x = r.random()
                if x < (0.5 if self.anon else 0.93):
                    kw[named] = self.pick(self.an, self.ra, 0.9)
                    if self.anon and r.random() < 0.2:
                        kw[direct] = r.choice(self.af)
                elif self.anon:
                    kw[direct] = r.choice(self.af)
        inp = r.random() < 0.7
        self.s.place(p, self.tokens(), inp, th=th, **kw)
        bad = p == "" or p in self.pl or any(kw.get(k) and not self.ra.get(kw[k]) for k in ("enN", "exN"))
        if not bad:
            self.pl[p] = inp
        return True

    def trans(self, th=0, valid=0.75):
        r = self.rng
        free = [t for t in self.tn if t not in self.tr]
        t = r.choice(free) if free and r.random() < 0.85 else r.choice(self.tn + [""])
        good = r.random() < valid

        def arcs(n, fresh=()):
            out = []
            for _ in range(n):
                p = r.choice(list(self.pl)) if self.pl and (good or r.random() < 0.8) else self.pick(self.pn, self.pl)
                if good and any(q == p for q, _ in out):
                    continue
                out.append((p, self.weight() if good or r.random() < 0.85 else 0))
            return out
        for _ in range(12):
            a, d, i = arcs(r.choice([1, 1, 2, 2, 3])), arcs(r.choice([0, 1, 1, 2])), arcs(r.choice([0, 0, 0, 1, 2]))
            tt = dict(A=a, D=d, I=i)
            if not good or self.safe_t(tt):
                break
        kw = {}
        if r.random() < 0.4:
            if self.anon and r.random() < 0.5:
                kw["cf"] = [r.choice(self.cf) for _ in range(r.randint(1, 2))]
            if not kw or r.random() < 0.3:
                kw["cn"] = [self.pick(self.cn, self.rc, 0.97 if good else 0.7) for _ in range(r.randint(1, 2))]
        bad = (t == "" or t in self.tr or any(q not in self.pl for x in (a, d, i) for q, _ in x)
               or any(len({q for q, _ in x}) != len(x) for x in (a, d, i))
               or any(w == 0 for x in (a, d, i) for _, w in x)
               or any(c not in self.rc for c in kw.get("cn", ())))
        if not bad and self.running and not self.safe_t(tt):
            return False
        self.s.trans(t, a, d, i, rna=r.random() < 0.15, th=th, **kw)
        if not bad:
            self.tr[t] = tt
        return True

    def arc(self, add, th=0):
        r = self.rng
        p, t = self.pick(self.pn, self.pl, 0.92), self.pick(self.tn, self.tr, 0.92)
        k = r.choice("ADIB")
        if t in self.tr:
            have = [(q, kk) for kk in "ADI" for q, _ in self.tr[t][kk]]
            both = [(q, "B") for q, _ in self.tr[t]["A"] if any(x == q for x, _ in self.tr[t]["D"])]
            if have and r.random() < (0.1 if add else 0.8):
                p, k = r.choice(have + both * 2)
        if add:
            w = self.weight() if r.random() < 0.85 else 0
            if k == "I" and w == 0:
                w = 1
            self.s.addarc(p, t, k, w, th=th)
        else:
            w = 1
            self.s.rmarc(p, t, k, th=th)
        if self.running or p not in self.pl or t not in self.tr:
            return True
        T = self.tr[t]
        ks = "AD" if k == "B" else k
        has = [any(q == p for q, _ in T[kk]) for kk in ks]
        if add:
            if not any(has) and not (w == 0 and k in "DB"):
                for kk in ks:
                    T[kk].append((p, w))
        elif all(has):
            for kk in ks:
                T[kk] = [x for x in T[kk] if x[0] != p]
        return True

    def reg(self, th=0):
        r = self.rng
        if r.random() < 0.5:
            n = r.choice(self.an + self.an + [""])
            f = r.choice(self.af)
            self.s.regact(n, f, th=th)
            if n and n not in self.ra:
                self.ra[n] = f
        else:
            n = r.choice(self.cn + self.cn + [""])
            f = r.choice(self.cf)
            self.s.regcond(n, f, th=th)
            if n and n not in self.rc:
                self.rc[n] = f
        return True

    def inc(self, th=0):
        good = [p for p in self.pl if self.pl[p]]
        self.s.inc(self.pick(self.pn, good or self.pl, 0.8), th=th)
        return True

    def exec(self, log=False):
        if not self.running:
            if not self.safe():
                return False
            if self.mode != "SINGLE_THREAD":
                self.running = True
        self.s.exec(log=log)
        return True

    def stop(self):
        self.s.stop()
        self.running = False
        return True

    def clear(self):
        self.s.simple("clear")
        if not self.running:
            self.pl, self.tr = {}, {}
        return True

    def setmode(self, m=None, modes=None):
        m = m or self.rng.choice(modes or MODES)
        self.s.setmode(m)
        if not self.running:
            self.mode = m
        return True

    def read(self, th=0):
        r = self.rng.random()
        s = self.s
        if r < 0.5:
            s.props(th)
        elif r < 0.65:
            s.simple("print", th)
        elif r < 0.85:
            s.tok(self.pick(self.pn, self.pl), th=th)
        else:
            s.simple(self.rng.choice(["running", "getmode", "getsleep"]), th)
        return True

    def flip(self, th=0):
        self.s.setc(self.rng.choice(self.cf), self.rng.randint(0, 1), th=th)
        return True

    def rebuild(self, n=(3, 5)):
        """A fresh valid net (after clear or at the start)."""
        for _ in range(self.rng.randint(*n)):
            self.place()
        for _ in range(self.rng.randint(1, 3)):
            self.trans(valid=1)


def edit_seq(rng, cid, length=(18, 34), mode="SINGLE_THREAD", weights=None, modes=None, names="plain", anon=True,
             big=False, props=0.5, seq=None, threads=False, pre=True, **kw):
    """One client, one engine, many calls."""
    multi = modes is not None and any(m != "SINGLE_THREAD" for m in modes) or mode != "SINGLE_THREAD"
    s = mk(cid, seq=not multi if seq is None else seq, big=big, **(cfgs(rng) if multi else dict(policy=0)))
    if mode == "JOB_QUEUE" and rng.random() < 0.3:
        s.newdefault()
    else:
        s.new(mode)
    ed = Editor(rng, s, mode, names=names, anon=anon, big=big, **kw)
    if pre:
        for _ in range(rng.randint(1, 3)):
            ed.reg()
        ed.rebuild()
    w = dict(place=4, trans=4, add=4, rm=3, reg=2, inc=3, exec=3, stop=1, clear=0.4, setmode=0, read=3, flip=1,
             setsleep=0.3, sleep=0, drain=0)
    w.update(weights or {})
    if big:      # a firing that overflows a place is out of scope (DESIGN.md)
        w["exec"] = 0
    table = dict(place=ed.place, trans=ed.trans, add=lambda: ed.arc(True), rm=lambda: ed.arc(False), reg=ed.reg,
                 inc=ed.inc, exec=ed.exec, stop=ed.stop, clear=ed.clear, setmode=lambda: ed.setmode(modes=modes),
                 read=ed.read, flip=ed.flip, setsleep=lambda: s.setsleep(rng.choice([1, 10, 100, 250, 1000])),
                 sleep=lambda: s.sleep(rng.choice([1, 50, 120])),
                 drain=lambda: None if ed.running else s.h("drain"))
    keys = list(w)
    for _ in range(rng.randint(*length)):
        k = rng.choices(keys, [w[x] for x in keys])[0]
        table[k]()
        if k in ("place", "trans", "add", "rm", "clear", "setmode", "reg", "exec") and rng.random() < props:
            s.props()
    ed.stop()
    s.props()
    s.simple("running")
    s.simple("getmode")
    s.finish()
    return s


# ---------------------------------------------------------------- requireNoActionsInExecution
def rna_net(rng, cid, mode=None, throws=0.0, short=False):
    """Small nets around a transition that requires no actions in execution."""
    mode = mode or rng.choice(MODES)
    sync = mode in SYNC
    s = mk(cid, seq=mode == "SINGLE_THREAD", **(dict(policy=0) if mode == "SINGLE_THREAD" else cfgs(rng)))
    s.new(mode)
    ins = rng.randint(1, 2)
    fs = []
    for i in range(ins):
        f = s.act("in%d" % i, throw=rng.choice([1, 2]) if sync and rng.random() < throws else 0)
        fs.append(f)
        if rng.random() < 0.8:
            s.sleep(rng.choice([1, 20, 60, 130, 300]), th=s.body(f))
    out = s.act("out")
    if rng.random() < 0.5:
        s.sleep(rng.choice([10, 200]), th=s.body(out))
    c = None
    if rng.random() < 0.4:
        thr = rng.choice([1, 2, 3]) if mode == "SINGLE_THREAD" and rng.random() < throws else 0
        c = s.cond("c", rng.random() < 0.7, throw=thr)
        slow_cond(rng, s, c, 0.6)
    places = []
    for i in range(ins):
        s.place("I%d" % i, rng.choice([0, 0, 1]), True, en=fs[i], ex=out if rng.random() < 0.3 else "")
        places.append("I%d" % i)
    if rng.random() < 0.12:                     # many activation places
        for i in range(ins, rng.randint(4, 12)):
            s.place("I%d" % i, rng.choice([1, 2, 4]), True, en=rng.choice(fs + [""]))
            places.append("I%d" % i)
    s.place("L", rng.choice([1, 2]), False, en="" if throws or mode == "EVENT_LOOP" else rng.choice(["", "out"]))
    s.place("O", 0, False, en=rng.choice(["", "out"]))
    act = [(p, rng.choice([1, 1, 2])) for p in places]
    dst = [("O", 1)]
    if rng.random() < 0.6:                      # puts back tokens into its own activation place
        act.append(("L", 1))
        dst.append(("L", 1))
    rng.shuffle(act)
    rng.shuffle(dst)
    inh = [("O", 1)] if rng.random() < 0.2 else []
    if rng.random() < 0.35 and not (throws and mode == "EVENT_LOOP"):    # several tokens brought in at once, by a transition
        s.place("F", rng.choice([1, 2]), True)
        s.trans("W", [("F", 1)], [(rng.choice(places), rng.choice([2, 3]))])
    s.trans("R", act, dst, inh, rna=True, cf=[c] if c and rng.random() < 0.7 else [])
    if rng.random() < 0.5:
        s.trans("N", [(rng.choice(places), 1)], [("O", 1)] if rng.random() < 0.5 else [], rna=rng.random() < 0.3,
                cf=[c] if c and rng.random() < 0.4 else [])
    k = rng.randint(1, 2) if mode != "SINGLE_THREAD" else 0
    if mode != "SINGLE_THREAD":
        s.exec()

    def op(th):
        r = rng.random()
        if r < 0.65:
            s.inc(rng.choice(places), th=th)
        elif r < 0.75:
            s.tok(rng.choice(places + ["O", "L"]), th=th)
        elif r < 0.85 and c:
            s.setc(c, rng.randint(0, 1), th=th)
        elif r < 0.95:
            s.sleep(rng.choice([5, 50, 100, 200]), th=th)
        elif mode == "SINGLE_THREAD":
            s.exec(th=th)
        else:
            s.simple("running", th)
    for t in range(1, k + 1):
        for _ in range(rng.randint(1, 3)):
            op(t)
        s.spawn(t)
    for _ in range(rng.randint(2, 4)):
        op(0)
        if mode == "SINGLE_THREAD" and rng.random() < 0.5:
            s.exec()
    for t in range(1, k + 1):
        s.join(t)
    s.sleep(rng.choice([0, 150, 700]))
    if mode == "SINGLE_THREAD":
        s.exec()
    else:
        if rng.random() < 0.3:
            s.stop()
            s.inc(rng.choice(places))
            s.exec()
            s.sleep(200)
        s.stop()
    s.props()
    s.finish()
    return s


# ---------------------------------------------------------------- timing
def timing(rng, cid, mode=None):
    """Changes the engine is not told about, sleep durations, edits while running."""
    mode = mode or rng.choice(LOOP)
    s = mk(cid, **cfgs(rng))
    if mode == "JOB_QUEUE":
        s.newdefault()
    else:
        s.new(mode)
    kind = rng.random()
    short = kind < 0.25     # a loop that spins this fast makes long traces
    durs = [1, 10, 50, 99] if short else [20, 50, 99, 101, 500, 3000]
    if kind > 0.8:          # seconds to half a day
        s.cfg["maxtime"] = 1000000000
        lo = rng.randrange(6)
        durs = rng.sample([1000, 4000, 10000, 20000, 61000, 600000, 3600000, 40000000][lo:lo + 3], 2)
    f = s.act("a")
    if rng.random() < 0.5:
        s.sleep(rng.choice([5, 40] if short else [5, 40, 300]), th=s.body(f))
    cs = [s.cond("c%d" % i, rng.random() < 0.2) for i in range(rng.randint(1, 2))]
    for c in cs:
        slow_cond(rng, s, c, 0.15)
    s.place("P", rng.randint(0, 2), True, en=f if rng.random() < 0.5 else "")
    s.place("Q", 0, True, en=f if rng.random() < 0.3 else "")
    for i, c in enumerate(cs):
        s.trans("T%d" % i, [("P", 1)], [("Q", 1)], cf=[c], rna=rng.random() < 0.3)
    if rng.random() < 0.5 or kind > 0.8:
        s.setsleep(rng.choice(durs))
        s.simple("getsleep")
    if rng.random() < 0.3:
        s.simple("getsleep")
    s.exec()
    n = [0]

    def op(th):
        r = rng.random()
        if r < 0.3:
            s.setc(rng.choice(cs), rng.random() < 0.8, th=th)
        elif r < 0.5:
            s.sleep(rng.choice([1, 30, 60] if short else [1, 1000, 3999, max(durs) // 2] if kind > 0.8
                               else [1, 30, 100, 130, 600]), th=th)
        elif r < 0.7:
            s.inc(rng.choice("PQ"), th=th)
        elif r < 0.85:
            s.setsleep(rng.choice(durs), th=th)
            if rng.random() < 0.5:
                s.simple("getsleep", th)
        elif r < 0.95:
            n[0] += 1
            s.trans("N%d" % n[0], [("Q", 1)], [], th=th)
        else:
            s.simple("running", th)
    k = rng.randint(0, 1)
    for t in range(1, k + 1):
        for _ in range(rng.randint(2, 4)):
            op(t)
        s.spawn(t)
    for _ in range(rng.randint(3, 6)):
        op(0)
    for t in range(1, k + 1):
        s.join(t)
    if kind > 0.8:
        s.setsleep(max(durs))       # the hours that follow are few steps
        s.sleep(max(durs) + rng.choice([0, 1, 500]))
    else:
        s.sleep(rng.choice([50, 110] if short else [100, 500, 500, 3100]))
    s.tok("P")
    s.stop()
    s.simple("getsleep")
    s.props()
    s.finish()
    return s


# ---------------------------------------------------------------- stop and restart
def stops(rng, cid, mode=None, reads=0.15, log=0.1):
    mode = mode or rng.choice(LOOP + (("SINGLE_THREAD",) if rng.random() < log else ()))
    s = mk(cid, **cfgs(rng))
    s.new(mode)
    fs = [s.act("a%d" % i) for i in range(2)]
    for f in fs:
        if rng.random() < 0.5:
            s.sleep(rng.choice([3, 40, 200]), th=s.body(f))
    c = s.cond("c", rng.random() < 0.8)
    slow_cond(rng, s, c)
    s.place("P", rng.randint(0, 3), True, en=rng.choice(["", "a0"]))
    s.place("Q", 0, False, en=rng.choice(["", "a1"]), ex=rng.choice(["", "", "a1"]))
    s.place("R", 0, True)
    s.trans("T", [("P", 1)], [("Q", 1)], cf=["c"] if rng.random() < 0.6 else [])
    if rng.random() < 0.7:
        s.trans("U", [("Q", 1)], [("R", 1)], cf=["c"] if rng.random() < 0.3 else [])
    if rng.random() < 0.4:
        s.setsleep(rng.choice([1, 100, 60000]))

    def op(th):
        r = rng.random()
        if r < 0.3:
            s.stop(th=th)
            if rng.random() < 0.3:
                s.tok(rng.choice("PQR"), th=th)
            if rng.random() < log / 2:
                s.setmode(rng.choice(MODES), th=th)
        elif r < 0.55:
            s.exec(log=rng.random() < log, th=th)
        elif r < 0.75:
            s.inc(rng.choice("PR"), th=th)
        elif r < 0.75 + reads:
            s.simple("running", th) if rng.random() < 0.6 else s.tok(rng.choice("PQR"), th=th)
        else:
            s.sleep(rng.choice([1, 10, 100]), th=th)
    k = rng.randint(0, 2)
    for t in range(1, k + 1):
        for _ in range(rng.randint(1, 4)):
            op(t)
        s.spawn(t)
    s.exec(log=rng.random() < log)
    if rng.random() < 0.1:
        for _ in range(rng.randint(8, 40)):
            s.stop()
            if rng.random() < 0.2:
                s.inc("P")
            s.exec(log=rng.random() < log)
    for _ in range(rng.randint(3, 7)):
        op(0)
    for t in range(1, k + 1):
        s.join(t)
    if rng.random() < 0.7:
        s.stop()
        s.simple("running")
        s.sleep(rng.choice([0, 150, 500]))
        s.props()
    s.finish()
    return s


# ---------------------------------------------------------------- pending actions at clear, mode change, destruction
def pending(rng, cid, what=None, modes=ASYNC, drain=False):
    what = what or rng.choice(["clear", "setmode", "del"])
    mode = rng.choice(modes)
    s = mk(cid, **cfgs(rng))
    s.new(mode)
    fs = []
    for i in range(rng.randint(1, 3)):
        f = s.act("a%d" % i)
        fs.append(f)
        if rng.random() < 0.7:
            s.sleep(rng.choice([1, 30, 120, 400]), th=s.body(f))
        else:
            s.h("yield", th=s.body(f))
    if rng.random() < 0.5:
        for f in fs:
            s.regact("n" + f, f)

    def build():
        def a(k):
            if rng.random() < 0.3:
                return {}
            f = rng.choice(fs)
            return {k + "N": "n" + f} if ("n" + f) in named and rng.random() < 0.6 else {k: f}
        s.place("P", rng.randint(0, 2), True, **dict(a("en"), **a("ex")))
        s.place("Q", 0, True, **dict(a("en"), **a("ex")))
        s.trans("T", [("P", 1)], [("Q", 1)], rna=rng.random() < 0.5)
        if rng.random() < 0.5:
            s.trans("U", [("Q", 2)], [], rna=rng.random() < 0.5)
    named = {a["n"] for o, a in s.ops.values() if o == "regact"}
    build()

    def use():
        if rng.random() < 0.75:
            s.exec()
            for _ in range(rng.randint(1, 3)):
                s.inc(rng.choice("PQ"))
                if rng.random() < 0.3:
                    s.sleep(rng.choice([1, 40, 150]))
            if rng.random() < 0.6 or what != "del":
                s.stop()
        else:
            for _ in range(rng.randint(1, 3)):
                s.inc(rng.choice("PQ"))
    use()
    for _ in range(rng.randint(1, 2)):
        if what == "clear":
            s.simple("clear")
            if drain and rng.random() < 0.6:
                s.h("drain")
            if rng.random() < 0.3:
                s.sleep(rng.choice([1, 100]))
            build()
        elif what == "setmode":
            m = rng.choice(MODES)
            s.setmode(m)
            s.simple("getmode")
            if m == "SINGLE_THREAD":
                s.inc("P")
                s.exec()
                s.setmode(rng.choice(LOOP))
        else:
            s.simple("del")
            if rng.random() < 0.4:
                s.h("drain")
            s.new(mode)
            named = set()
            build()
        use()
    if what != "del":
        s.exec() if rng.random() < 0.5 else None
        s.sleep(rng.choice([0, 1000]))
        s.props()
        s.stop()
    s.finish()
    return s


# ---------------------------------------------------------------- export, import
def export_import(rng, cid, big=False, running=0.2, names=None, files=False, reuse=True):
    mode = rng.choice(MODES)
    s = mk(cid, big=big, **(dict(policy=0) if rng.random() < 0.5 else cfgs(rng)))
    s.new(mode)
    ed = Editor(rng, s, mode, names=names or rng.choice(["plain", "weird"]), anon=False, big=big)
    for n, f in zip(ed.an, ed.af):
        s.regact(n, f)
        ed.ra[n] = f
    for n, f in zip(ed.cn, ed.cf):
        s.regcond(n, f)
        ed.rc[n] = f
    ed.rebuild((2, 5))
    for _ in range(rng.randint(0, 3)):
        ed.arc(rng.random() < 0.7)
    if rng.random() < 0.4 and not big:
        ed.exec()
        ed.inc()
        if ed.running and rng.random() < 0.5:
            s.export("x0", 0)
        ed.stop()
    s.export("s1", 0)
    safe = ed.safe()
    s.props()
    if rng.random() < 0.5:
        ed.inc()
        if rng.random() < 0.5:
            ed.arc(True)
            ed.place()
        if rng.random() < 0.3:
            ed.setmode(rng.choice(MODES))
        s.export("s1" if rng.random() < 0.5 else "s2", rng.choice([0, 0, 1]))
        s.props()
    slot = "s1"
    safe = safe and ed.safe()
    # another engine with the same registrations
    x = rng.random()
    if x < 0.7:
        s.simple("del")
        s.new(rng.choice(MODES))
        for n, f in zip(ed.an, ed.af):
            s.regact(n, f)
        for n, f in zip(ed.cn, ed.cf):
            s.regcond(n, f)
    elif x < 0.85:
        s.simple("clear")
    elif x < 0.93:
        s.exec() if ed.safe() and not big and ed.mode != "SINGLE_THREAD" else None
    if rng.random() < 0.2 and safe and not big:
        s.exec()
    s.imp(slot)
    s.simple("running")
    s.simple("getmode")
    s.props()
    s.export("s3", rng.choice([0, 1, 2]))
    if safe and not big:
        s.exec()
        s.sleep(300)
        s.stop()
        s.props()
    s.finish()
    return s


def xesc(t):
    return (t.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;")
            .replace("\t", "&#9;").replace("\n", "&#10;"))


def xml_file(rng, ed, bad=None):
    """A file of the documented format describing a random net; bad: what is wrong with it."""
    q = xesc
    mode = rng.choice(MODES)
    pl, tr, arcs = [], [], []
    names = rng.sample(ed.pn, rng.randint(1, 4))
    names.sort(key=ed.pn.index)
    num = (lambda: str(rng.choice([0, 1, 2, 5]))) if not ed.big else (lambda: str(ed.tokens()))
    for p in names:
        a = ['name="%s"' % q(p)]
        if rng.random() < 0.85:
            a.append('tokens="%s"' % num())
        if rng.random() < 0.85:
            a.append('input="%s"' % rng.choice(["true", "false"]))
        for k in ("onEnterAction", "onExitAction"):
            if rng.random() < 0.4:
                a.append('%s="%s"' % (k, q(rng.choice(ed.an + [""]))))
        rng.shuffle(a)
        pl.append("<Place %s/>" % " ".join(a))
    info = {}
    for t in rng.sample(ed.tn, rng.randint(0, 3)):
        A, D, I = {}, {}, {}
        inline = rng.random() < 0.5

        def w():
            return str(rng.choice([1, 1, 2]) if not ed.big else ed.weight())
        i = rng.randrange(len(names))
        A[names[i]] = w()
        for k in range(i + 1, len(names)):
            if rng.random() < 0.5:
                D[names[k]] = w()
        for n in names:
            if n not in A and rng.random() < 0.2:
                I[n] = w()
        o = ['<Name value="%s"/>' % q(t)]
        if rng.random() < 2:
            o.append('<RequireNoActionsInExecution value="%s"/>' % rng.choice(["true", "false"]))
        if rng.random() < 0.4:
            o.append("<ActivationConditions>%s</ActivationConditions>" % "".join(
                '<Condition name="%s"/>' % q(c) for c in rng.sample(ed.cn, rng.randint(1, len(ed.cn)))))

        def lst(tag, d):
            return "<%s>%s</%s>" % (tag, "".join('<Place name="%s"%s/>' % (
                q(p), "" if x == "1" and rng.random() < 0.3 else ' weight="%s"' % x) for p, x in d.items()), tag)
        if inline:
            for tag, d in (("ActivationPlaces", A), ("DestinationPlaces", D), ("InhibitorPlaces", I)):
                if d or rng.random() < 0.3:
                    o.append(lst(tag, d))
            A, D, I = {}, {}, {}
        rng.shuffle(o)
        tr.append("<Transition>%s</Transition>" % "".join(o))
        for k, d in (("Activation", A), ("Destination", D), ("Inhibitor", I)):
            for p, x in d.items():
                arcs.append((t, p, k, x))
        rest = [n for n in names if n not in A and n not in D]
        if not inline and rest and rng.random() < 0.3:
            arcs.append((t, rng.choice(rest), "Bidirectional", w()))
        info[t] = 1
    if bad == "dupplace" and pl:
        pl.append(pl[0])
    if bad == "duptrans" and tr:
        tr.append(tr[0])
    if bad == "arcdup" and arcs:
        arcs.append(arcs[0])
    if bad == "arcplace":
        arcs.append((ed.tn[0], "nope", "Activation", "1"))
    if bad == "arctrans":
        arcs.append(("nope", names[0], "Activation", "1"))
    if bad == "arctype" and info:
        arcs.append((list(info)[0], names[0], "Sideways", "1"))
    if bad == "arcweight" and info:
        arcs.append((list(info)[0], names[-1], rng.choice(["Inhibitor", "Destination"]),
                     rng.choice(["x", "-1", "1x", "", " ", "0x10", "99999999999999999999", "1.5", "18446744073709551616"])))
    if bad == "tokens":
        pl.append('<Place name="zz" tokens="%s" input="true"/>' % rng.choice(
            ["x", "-1", "1e3", "18446744073709551616", "3 ", "0x1", "+1", "1,0"]))
    if bad == "action":
        pl.append('<Place name="zz" tokens="1" input="true" onEnterAction="unregistered"/>')
    if bad == "cond":
        tr.append('<Transition><Name value="zz"/><RequireNoActionsInExecution value="false"/><ActivationConditions>'
                  '<Condition name="unregistered"/></ActivationConditions></Transition>')
    if bad == "flag":
        tr.append('<Transition><Name value="zz"/><RequireNoActionsInExecution value="%s"/></Transition>'
                  % rng.choice(["maybe", "", "2", "TRUEish"]))
    if bad == "emptyname":
        pl.append('<Place name="" tokens="1" input="true"/>')
    if bad == "inlinezero" and names:
        tr.append('<Transition><Name value="zz"/><RequireNoActionsInExecution value="false"/><ActivationPlaces>'
                  '<Place name="%s" weight="0"/></ActivationPlaces></Transition>' % q(names[0]))
    if bad == "inlinerep" and names:
        tr.append('<Transition><Name value="zz"/><RequireNoActionsInExecution value="false"/><DestinationPlaces>'
                  '<Place name="{0}" weight="1"/><Place name="{0}" weight="1"/></DestinationPlaces></Transition>'
                  .format(q(names[0])))
    if bad == "mode":
        mode = rng.choice(["", "EVENTLOOP", "single_thread", "4"])
    rng.shuffle(arcs) if bad != "arcdup" else None
    if bad == "noflag":
        tr.append('<Transition><Name value="zz"/></Transition>')
    if bad == "noname":
        tr.append('<Transition><RequireNoActionsInExecution value="true"/></Transition>')
    ax = []
    for t, p, k, x in arcs:
        f = ['<Transition value="%s"/>' % q(t), '<Place value="%s"/>' % q(p), '<Type value="%s"/>' % k,
             '<Weight value="%s"/>' % x]
        rng.shuffle(f)
        ax.append(["<Arc>", *f, "</Arc>"])
    if bad == "arcpart" and ax:
        ax[-1].pop(rng.randint(1, 4))
    # The same content, laid out in one of the many ways XML allows.
    style = rng.random() < 0.5
    sec = [["<Places>"] + pl + ["</Places>"], ["<Transitions>"] + tr + ["</Transitions>"],
           ["<Arcs>"] + [x for a in ax for x in a] + ["</Arcs>"]]
    if style:
        rng.shuffle(sec)
        if rng.random() < 0.3:
            sec = [x for x in sec if len(x) > 2]
    bits = ['<PTN-Engine actionsThreadOption="%s">' % mode] + [x for s in sec for x in s] + ["</PTN-Engine>"]
    if style:
        out = []
        for x in bits:
            if rng.random() < 0.2:
                out.append(rng.choice(["<!-- a note -->", '<!-- <Place name="zz" tokens="1" input="true"/> -->', "\n\n",
                                       "\t", "\r\n", "<?tool keep?>"]))
            if rng.random() < 0.2:
                x = re.sub(r"^<Place ((?:[^<>]*[^/])?)/>$", r"<Place \1 ></Place >", x)
            if rng.random() < 0.2 and "'" not in x:
                x = x.replace('"', "'")
            out.append(x)
        bits = out
    doc = (rng.choice(['<?xml version="1.0"?>\n', '<?xml version="1.0" encoding="UTF-8"?>', ""]) if style else
           '<?xml version="1.0"?>\n') + ("" if style else "\n").join(bits) + "\n"
    if bad == "truncated":
        doc = doc[:rng.randrange(30, len(doc) - 16)]
    if bad == "garbage":
        doc = rng.choice(["", "not xml", "<", "<a><b></a>", "<?xml version=\"1.0\"?>"])
    if bad == "root":
        doc = doc.replace("PTN-Engine", "Petri")
    return doc


BAD = ["dupplace", "duptrans", "arcdup", "arcplace", "arctrans", "arctype", "arcweight", "tokens", "action", "cond", "flag",
       "emptyname", "noflag", "noname", "arcpart", "inlinezero", "inlinerep", "mode", "truncated", "garbage", "root"]


def import_file(rng, cid, big=False, bads=0.5):
    mode = rng.choice(MODES)
    s = mk(cid, big=big, **(dict(policy=0) if rng.random() < 0.5 else cfgs(rng)))
    s.new(mode)
    ed = Editor(rng, s, mode, names=rng.choice(["plain", "weird"]), anon=False, big=big)
    for n, f in zip(ed.an, ed.af):
        s.regact(n, f)
        ed.ra[n] = f
    for n, f in zip(ed.cn, ed.cf):
        s.regcond(n, f)
        ed.rc[n] = f
    pre = rng.random()
    if pre < 0.3:
        ed.rebuild((1, 2))
        if pre < 0.2 and not big:
            ed.exec()
    for i in range(rng.randint(1, 3)):
        bad = rng.choice(BAD) if rng.random() < bads else None
        if rng.random() < 0.05:
            s.imp("missing")
        else:
            f = rng.choice(["f", "g"])
            s.writefile(f, xml_file(rng, ed, bad))
            s.imp(f)
        s.simple("getmode")
        s.simple("running")
        s.props()
        if rng.random() < 0.5:
            s.simple("clear")
    s.stop()
    s.export("out", 0)
    s.props()
    s.finish()
    return s


def export_effects(rng, cid):
    """Exporting changes nothing, is repeatable, refused while running, and reports failure."""
    mode = rng.choice(MODES)
    s = mk(cid, **(dict(policy=0) if rng.random() < 0.4 else cfgs(rng)))
    s.new(mode)
    ed = Editor(rng, s, mode, names=rng.choice(["plain", "plain", "weird"]), anon=False)
    for n, f in zip(ed.an, ed.af):
        s.regact(n, f)
        ed.ra[n] = f
    for n, f in zip(ed.cn, ed.cf):
        s.regcond(n, f)
        ed.rc[n] = f
    ed.rebuild((2, 4))
    for _ in range(rng.randint(4, 9)):
        r = rng.random()
        if r < 0.45:
            s.export(rng.choice(["a", "a", "b"]), rng.choice([0, 0, 0, 1]))
            if rng.random() < 0.5:
                s.props()
            if rng.random() < 0.3:
                s.simple("getmode")
                s.simple("running")
        elif r < 0.55:
            s.exportbad(rng.choice(["dir", "full", "nodir"]))
        elif r < 0.65:
            ed.exec()
        elif r < 0.75:
            ed.stop()
        elif r < 0.85:
            ed.inc()
        else:
            rng.choice([ed.place, ed.trans, lambda: ed.arc(True), lambda: ed.arc(False), ed.clear, ed.setmode])()
    s.stop()
    s.export("a", 0)
    s.props()
    s.finish()
    return s


# ---------------------------------------------------------------- exceptions
def throws(rng, cid, mode=None):
    mode = mode or rng.choice(["SINGLE_THREAD", "SINGLE_THREAD", "EVENT_LOOP"])
    if mode == "SINGLE_THREAD":
        s = mk(cid, seq=True, policy=0)
        s.new(mode)
        n = Net(rng, s, np=rng.randint(3, 4), nt=rng.randint(2, 4), acts=rng.randint(1, 3), conds=rng.randint(0, 2),
                rna=0.4, exits=0.6, tok=2)
        if rng.random() < 0.15:     # conditions that are no functions
            c = s.cond("cy", rng.random() < 0.8)
            s.regcond("null", "")
            at = [(rng.choice(n.places[:-1]), 1)]
            k = rng.randrange(3)
            named = rng.random() < 0.5
            if named:
                s.regcond("y", c)
            cs = [["null"], ["y", "null"], ["null", "y"]][k] if named else [[""], [c, ""], ["", c]][k]
            s.trans("Null", at, [], rna=rng.random() < 0.3, **(dict(cn=cs) if named else dict(cf=cs)))
        for f, x in s.fns.items():
            if rng.random() < 0.7:
                x[2] = rng.choice([1, 1, 2, 3])
        for _ in range(rng.randint(3, 6)):
            r = rng.random()
            if r < 0.5:
                s.exec(log=rng.random() < 0.1)
            elif r < 0.8:
                s.inc(rng.choice(n.inputs))
            elif n.conds:
                s.setc(rng.choice(n.conds), rng.randint(0, 1))
            if rng.random() < 0.6:
                s.props()
        for _ in range(rng.choice([1, 3])):
            s.exec()
            s.props()
        s.simple("running")
        if rng.random() < 0.5:
            s.setmode("EVENT_LOOP")
            for x in s.fns.values():
                if x[2] == 0:
                    continue
            s.setmode("SINGLE_THREAD")
        s.finish()
        return s
    # EVENT_LOOP: on enter actions of input places throw out of incrementInputPlace
    s = mk(cid, **cfgs(rng))
    s.new(mode)
    for i in range(2):
        f = s.act("in%d" % i, throw=rng.choice([0, 1, 2, 3]))
        if rng.random() < 0.4:
            s.sleep(rng.choice([1, 50]), th=s.body(f))
        s.place("I%d" % i, rng.randint(0, 1), True, en=f)
    s.act("o")
    s.place("O", 0, True, en=rng.choice(["", "o"]))
    s.trans("T", [("I0", 1)] + ([("I1", 1)] if rng.random() < 0.5 else []), [("O", 1)], rna=rng.random() < 0.6)
    if rng.random() < 0.6:
        s.trans("U", [("I1", 1)], [("O", 1)], [("I0", 1)] if rng.random() < 0.4 else [], rna=rng.random() < 0.6)
    running = rng.random() < 0.7
    if running:
        s.exec()

    def op(th):
        s.inc(rng.choice(["I0", "I0", "I1", "I1", "O"]), th=th)
        if rng.random() < 0.3:
            s.tok(rng.choice(["I0", "I1", "O"]), th=th)
    k = rng.randint(0, 2)
    for t in range(1, k + 1):
        for _ in range(rng.randint(1, 2)):
            op(t)
        s.spawn(t)
    for _ in range(rng.randint(2, 4)):
        op(0)
    for t in range(1, k + 1):
        s.join(t)
    if not running:
        s.exec()
    s.sleep(rng.choice([0, 150, 400]))
    s.stop()
    s.props()
    s.finish()
    return s


# ---------------------------------------------------------------- many clients, calls from actions
def clients(rng, cid, mode=None, n=None, fromActions=0.7, edits=0.4):
    mode = mode or rng.choice(MODES)
    s = mk(cid, **cfgs(rng))
    s.new(mode)
    fs = [s.act("a%d" % i) for i in range(2)]
    cs = [s.cond("c%d" % i, rng.random() < 0.8) for i in range(1)]
    slow_cond(rng, s, cs[0])
    s.regact("na", "a0")
    s.place("P", rng.randint(0, 2), True, en=rng.choice(["", "a0"]), ex=rng.choice(["", "a1"]))
    s.place("Q", rng.randint(0, 1), True, en=rng.choice(["", "a1"]))
    s.place("Z", 0, True)
    s.trans("T", [("P", 1)], [("Q", 1)], cf=cs if rng.random() < 0.4 else [], rna=rng.random() < 0.25)
    if rng.random() < 0.6:
        s.trans("U", [("Q", 1)], [("Z", 1)], [("P", 1)] if rng.random() < 0.3 else [], rna=rng.random() < 0.25)
    uid = [0]

    def op(th, inAction=False):
        r = rng.random()
        if r < 0.25:
            s.inc("Z" if inAction else rng.choice("PQZ"), th=th)
        elif r < 0.45:
            s.tok(rng.choice("PQZ"), th=th)
        elif r < 0.52:
            s.simple("running", th)
        elif r < 0.57:
            s.props(th)
        elif r < 0.62:
            s.simple("print", th)
        elif r < 0.70:
            s.stop(th=th)
        elif r < 0.78 and not inAction:
            s.exec(th=th)
        elif r < 0.78 + edits * 0.5:
            uid[0] += 1
            x = rng.random()
            if x < 0.25:
                s.place("N%d" % uid[0], 0, True, en=rng.choice(["", "a1"]) if not inAction else "", th=th)
            elif x < 0.45:
                s.trans("V%d" % uid[0], [("Z", 1)], [], th=th)
            elif x < 0.6:
                s.regact("n%d" % rng.randint(1, 3), rng.choice(fs), th=th)
            elif x < 0.7:
                s.regcond("n%d" % rng.randint(1, 3), rng.choice(cs), th=th)
            elif x < 0.78:
                s.addarc("Z", "T", "D", 1, th=th)
            elif x < 0.85:
                s.rmarc("Q", "T", "D", th=th)
            elif x < 0.92:
                s.setsleep(rng.choice([10, 100, 1000]), th=th)
            elif x < 0.96:
                s.simple(rng.choice(["getmode", "getsleep"]), th)
            elif mode in LOOP and not inAction:
                s.setmode(rng.choice(LOOP), th=th)
        elif not inAction:
            s.sleep(rng.choice([1, 20, 100]), th=th)
    if mode in ASYNC and rng.random() < fromActions:
        for f in fs:
            for _ in range(rng.randint(0, 2)):
                op(s.body(f), True)
            if rng.random() < 0.3:
                s.sleep(rng.choice([1, 40]), th=s.body(f))
        # the mode must stay asynchronous
        for th in s.threads:
            pass
    k = n or rng.randint(1, 3)
    calls = any(x[3] and any("sleep" not in b and "yield" not in b for b in x[3]) for x in s.fns.values())
    if calls:
        mode0, mode = mode, "x"      # no mode changes
    for t in range(1, k + 1):
        for _ in range(rng.randint(1, 3)):
            op(t)
        s.spawn(t)
    if rng.random() < 0.8:
        s.exec()
    for _ in range(rng.randint(1, 4)):
        op(0)
    for t in range(1, k + 1):
        s.join(t)
    s.sleep(rng.choice([0, 100, 1000]))
    s.stop()
    if calls:
        s.sleep(5000)
        s.stop()
        s.h("drain")
    s.props()
    s.finish()
    return s


# ---------------------------------------------------------------- 64 bit numbers
def big_net(rng, cid):
    s = mk(cid, seq=True, big=True, policy=0)
    s.new("SINGLE_THREAD")
    M = 2**64 - 1
    f = s.act("a")
    np = rng.randint(2, 4)
    toks = []
    cap = []
    for i in range(np):
        t = rng.choice([0, 1, 5, 2**32, 2**63, M, M - 1, 2**63 - 1, rng.randrange(2**64)])
        if i:
            t = rng.choice([0, 1, 2**16, 2**32, rng.randrange(2**62)])
        toks.append(t)
        s.place("P%d" % i, t, True, en=rng.choice(["", "a"]), ex=rng.choice(["", "", "a"]))
    room = M
    t0 = toks[0]
    w = rng.choice([max(1, t0 // 3), max(1, t0 // 2), max(1, t0 - 1), max(1, t0), min(M, t0 + 1)])
    fires = (t0 + 6) // w
    dst, used = [], {0}
    for i in range(1, np):
        if rng.random() < 0.7:
            lim = (M - toks[i] - 8) // max(1, fires + 2)
            dst.append(("P%d" % i, rng.choice([1, max(1, lim), max(1, lim // 2), min(lim, 2**33)]) or 1))
    inh = []
    if np > 2 and rng.random() < 0.3 and toks[2] == 0 and "P2" not in dict(dst):
        inh = [("P2", rng.choice([1, M]))]
    s.trans("T", [("P0", w)], dst, inh)
    if np > 2 and rng.random() < 0.5:
        s.trans("U", [("P1", rng.choice([2**63, M, 2**62]))], [])
    for _ in range(rng.randint(2, 5)):
        r = rng.random()
        if r < 0.5:
            s.inc("P%d" % rng.randrange(np))
        elif r < 0.8:
            s.exec()
        else:
            s.simple("print")
        s.tok("P%d" % rng.randrange(np))
    s.exec()
    s.props()
    s.finish()
    return s


# ---------------------------------------------------------------- SINGLE_THREAD mode, several clients
def single_clients(rng, cid):
    s = mk(cid, **cfgs(rng))
    s.new("SINGLE_THREAD")
    o = dict(np=3, nt=rng.randint(1, 3), acts=rng.randint(0, 1), conds=rng.randint(0, 1), tok=2, body=sync_body, slow=0.4)
    n = Net(rng, s, **o)

    def op(th):
        r = rng.random()
        if r < 0.35:
            s.exec(th=th)
        elif r < 0.65:
            s.inc(rng.choice(n.inputs), th=th)
        elif r < 0.85:
            s.tok(rng.choice(n.places), th=th)
        elif r < 0.9:
            s.simple("print", th)
        elif r < 0.95:
            s.simple("running", th)
        else:
            s.stop(th=th)
    k = rng.randint(1, 2)
    for t in range(1, k + 1):
        for _ in range(rng.randint(1, 3)):
            op(t)
        s.spawn(t)
    for _ in range(rng.randint(1, 3)):
        op(0)
    for t in range(1, k + 1):
        s.join(t)
    s.exec()
    s.props()
    s.finish()
    return s


# ---------------------------------------------------------------- job queue
def job_queue(rng, cid):
    s = mk(cid, jq=1, **{k: v for k, v in cfgs(rng).items()})
    s.module, s.tracecfg = "JobQueueTrace.tla", "JobQueueTrace.cfg"
    fs = []
    for i in range(rng.randint(1, 3)):
        f = s.act("j%d" % i)
        fs.append(f)
    for f in fs:
        r = rng.random()
        if r < 0.4:
            s.sleep(rng.choice([1, 50, 150, 250]), th=s.body(f))
        elif r < 0.55:
            s.h("yield", th=s.body(f))
        elif r < 0.68 and f != "j0":      # a job that adds a job (that does not)
            s.jop("jadd", "j0", th=s.body(f))
        elif r < 0.74:
            s.jop("jact", th=s.body(f))
        elif r < 0.8:
            s.jop("jisact", th=s.body(f))
    # j0 must not add
    s.jop("jnew")

    def op(th, d):
        r = rng.random()
        if r < 0.45:
            s.jop("jadd", rng.choice(fs), th=th)
        elif r < 0.62:
            s.jop("jdeact", th=th)
        elif r < 0.8:
            s.jop("jact", th=th)
        elif r < 0.88:
            s.jop("jisact", th=th)
        else:
            s.sleep(rng.choice([1, 60, 120, 300]), th=th)
    k = rng.choice([0, 1, 1, 2])
    for t in range(1, k + 1):
        for _ in range(rng.randint(1, 4)):
            op(t, 0)
        s.spawn(t)
    for _ in range(rng.randint(2, 8)):
        op(0, 0)
    for t in range(1, k + 1):
        s.join(t)
    if rng.random() < 0.5:
        if rng.random() < 0.7:
            s.jop("jact")
        s.h("drain")
    s.jop("jdel")
    s.h("drain")
    return s


# ---------------------------------------------------------------- competition
def fair(rng, cid, kind=None):
    """Transitions competing for tokens.  s.meta: kind, number of competitors, places counting who won."""
    kind = kind or rng.choice(["single", "single", "repeat", "multi", "some"])
    if kind == "some":
        return fair_some(rng, cid)
    mode = rng.choice(MODES) if kind != "multi" else rng.choice(["SINGLE_THREAD", "EVENT_LOOP"])
    s = mk(cid, seq=mode == "SINGLE_THREAD", policy=0, switch=rng.choice([5, 40]))
    s.new(mode)
    # many competitors: more runs are needed
    many = kind != "multi" and rng.random() < 0.3
    k = rng.choice([7, 9, 12, 17, 20]) if many else rng.randint(2, 4)
    s.act("a")
    s.cond("y", True)
    names = rng.sample(["A", "B", "Z", "T1", "T2", "m", "0", "zz", "AA", "transition"] +
                       (["t%d" % j for j in range(20)] if many else []), k)
    extra = rng.random() < 0.5
    s.place("C", 0 if kind == "repeat" or rng.random() < 0.5 else 1, True, en=rng.choice(["", "a"]))
    if extra:
        s.place("E", 500, False)
    outs = []
    for j in range(k):
        s.place("O%d" % j, 0, False, en=rng.choice(["", "", "a"]))
        outs.append("O%d" % j)
    s.place("N", 0, False)
    order = list(range(k))
    rng.shuffle(order)
    idle = 0

    def idler():
        # a transition that is never enabled, between the others
        nonlocal idle
        if kind != "multi" and rng.random() < fill:
            s.trans("%s%d" % (rng.choice("aNx"), idle), [("N", 1)], [("N", 1)], [("O0", 1)] if rng.random() < 0.5 else [])
            idle += 1
    fill = rng.choice([0, 0, 0, 0.5, 1])
    for j in order:
        idler()
        act = [("C", 1)]
        if extra and rng.random() < 0.4:
            act.insert(rng.randrange(2), ("E", 1))
        dst = [("O%d" % j, 1)]
        inh = [("N", 1)] if rng.random() < 0.2 else []
        add = rng.random() < 0.25
        s.trans(names[j], act if not add or len(act) < 2 else act, dst, inh, cf=["y"] if rng.random() < 0.3 else [],
                rna=mode in SYNC and rng.random() < 0.2)
        if add and extra and not any(p == "E" for p, _ in act):
            s.addarc("E", names[j], rng.choice("AB"))
    idler()
    if kind == "multi":
        # the winners compete again
        s.place("D", 0, False)
        s.place("X", 0, False)
        s.place("Y", 0, False)
        for j in range(min(k, 2)):
            s.addarc("D", names[j], "D")
        s.trans("x1", ["D"], ["X"])
        s.trans("y1", ["D"], ["Y"])
    rounds = (120 if many else 60) if kind == "repeat" else 1
    c0 = int(s.raw[[n for n, (o, a) in s.ops.items() if o == "place" and a["p"] == "C"][0]].split()[2])
    if mode == "SINGLE_THREAD":
        for _ in range(rounds):
            if not c0:
                s.inc("C")
            s.exec()
    else:
        s.exec()
        for _ in range(rounds):
            if not c0:
                s.inc("C")
            s.sleep(1)
        s.sleep(150)
        s.stop()
    s.props()
    s.finish()
    s.meta = dict(kind=kind, k=k, outs=outs, rounds=rounds)
    s.fixed_runs = (8 if many else 4) if kind == "repeat" else 35 * k if many else 260
    return s


def fair_some(rng, cid):
    """Several tokens, more transitions that compete for them, each of which fires at most once: which ones win?"""
    mode = rng.choice(MODES)
    s = mk(cid, seq=mode == "SINGLE_THREAD", policy=0, switch=rng.choice([5, 40]))
    s.new(mode)
    k = rng.randint(4, 5)
    tok = rng.randint(2, 3)
    s.act("a")
    s.cond("y", True)
    names = rng.sample(["A", "B", "Z", "T1", "T2", "m", "0", "zz", "AA", "transition"], k)
    s.place("C", tok, True)
    outs = ["O%d" % j for j in range(k)]
    for o in outs:
        s.place(o, 0, False, en=rng.choice(["", "", "a"]))
    for j in rng.sample(range(k), k):
        s.trans(names[j], [("C", 1)], [(outs[j], 1)], [(outs[j], 1)], cf=["y"] if rng.random() < 0.3 else [])
    s.exec()
    if mode != "SINGLE_THREAD":
        s.sleep(150)
        s.stop()
    s.props()
    s.finish()
    s.meta = dict(kind="some", k=k, outs=outs, rounds=1)
    s.fixed_runs = 260
    return s


# ---------------------------------------------------------------- candidates that do not stay valid
def stale(rng, cid, mode=None):
    """Transitions enabled at the same time that disable one another: by taking tokens, by filling
    inhibitor places, by actions that change conditions."""
    mode = mode or rng.choice(["SINGLE_THREAD", "SINGLE_THREAD", "EVENT_LOOP", "JOB_QUEUE"])
    seq = mode == "SINGLE_THREAD"
    s = mk(cid, seq=seq, **(dict(policy=0) if seq else cfgs(rng)))
    s.new(mode)
    cs = [s.cond("c%d" % i, rng.random() < 0.7) for i in range(rng.randint(1, 2))]
    for c in cs:
        slow_cond(rng, s, c)
    fs = [s.act("a%d" % i) for i in range(rng.randint(1, 2))]
    if mode in SYNC:
        for f in fs:
            if rng.random() < 0.7:
                s.setc(rng.choice(cs), rng.randint(0, 1), th=s.body(f))
    src = ["S%d" % i for i in range(rng.randint(1, 2))]
    out = ["O%d" % i for i in range(rng.randint(1, 3))]
    for p in src:
        s.place(p, rng.randint(0, 3), True, en=rng.choice(["", rng.choice(fs)]), ex=rng.choice(["", rng.choice(fs)]))
    for p in out:
        s.place(p, 0, rng.random() < 0.5, en=rng.choice(["", rng.choice(fs), rng.choice(fs)]))
    for j in range(rng.randint(2, 5)):
        act = [(p, rng.choice([1, 1, 2])) for p in rng.sample(src, rng.randint(1, len(src)))]
        dst = [(p, 1) for p in rng.sample(out, rng.randint(0, min(2, len(out))))]
        inh = [(p, 1) for p in rng.sample(out, rng.randint(0, min(2, len(out)))) if rng.random() < 0.6]
        s.trans("T%d" % j, act, dst, inh, cf=[c for c in cs if rng.random() < 0.4], rna=rng.random() < 0.15)
    if rng.random() < 0.5:
        s.trans("X", [(rng.choice(out), 1)], [], cf=[rng.choice(cs)] if rng.random() < 0.4 else [])
    for _ in range(rng.randint(1, 4)):
        if seq:
            s.exec()
        for _ in range(rng.randint(0, 2)):
            s.inc(rng.choice(src))
        if rng.random() < 0.5:
            s.setc(rng.choice(cs), rng.randint(0, 1))
        if seq and rng.random() < 0.5:
            s.props()
        if not seq and rng.random() < 0.4:
            s.sleep(rng.choice([1, 100]))
    if not seq:
        s.exec()
        for t in range(1, rng.randint(1, 3)):
            for _ in range(rng.randint(1, 2)):
                s.inc(rng.choice(src), th=t)
            s.spawn(t)
        for _ in range(rng.randint(0, 2)):
            s.inc(rng.choice(src))
            if rng.random() < 0.4:
                s.setc(rng.choice(cs), rng.randint(0, 1))
        for t in s.threads:
            if t:
                s.join(t)
        s.sleep(rng.choice([0, 150, 300]))
        s.stop()
    else:
        s.exec()
    s.props()
    s.finish()
    return s


# ---------------------------------------------------------------- many producers
def producers(rng, cid, mode=None):
    """Several threads adding tokens to the same places while the net takes them."""
    mode = mode or rng.choice(LOOP)
    s = mk(cid, **cfgs(rng))
    if s.cfg["policy"] == 2 and rng.random() < 0.6:
        s.cfg["mem"] = rng.choice([50, 200])
    s.new(mode)
    f = s.act("a")
    en = rng.choice(["", "", "a"])
    s.place("P", rng.randint(0, 1), True, en=en)
    s.place("Q", 0, True, en=rng.choice(["", "a"]))
    w = rng.choice([1, 1, 2, 3])
    s.trans("T", [("P", w)], [("Q", rng.choice([1, 2]))], [] if rng.random() < 0.8 else [("Z", 1)][:0])
    if rng.random() < 0.5:
        s.trans("U", [("Q", rng.choice([1, 3])), ("P", 1)], [("P", 1)] if rng.random() < 0.6 else [])
    started = rng.random() < 0.7
    if started:
        s.exec()
    k = rng.randint(2, 3)
    for t in range(1, k + 1):
        for _ in range(rng.randint(1, 3)):
            s.inc(rng.choice("PPQ"), th=t)
            if rng.random() < 0.2:
                s.tok(rng.choice("PQ"), th=t)
        s.spawn(t)
    for _ in range(rng.randint(0, 2)):
        s.inc("P")
    for t in range(1, k + 1):
        s.join(t)
    s.props()
    if not started:
        s.exec()
    s.sleep(rng.choice([0, 50, 250]))
    s.stop()
    s.props()
    s.finish()
    return s


# ---------------------------------------------------------------- long runs
def cascade(rng, cid):
    """Long chains and cycles (with fuel) in SINGLE_THREAD mode: many firings per execute()."""
    s = mk(cid, seq=True, policy=0)
    s.new("SINGLE_THREAD")
    n = rng.randint(3, 8)
    fs = [s.act("a%d" % i) for i in range(2)]
    cs = [s.cond("c%d" % i, rng.random() < 0.8) for i in range(rng.randint(0, 2))]
    for i in range(n):
        s.place("P%d" % i, rng.choice([0, 0, 1]) if i else rng.randint(1, 5), i == 0, en=rng.choice(["", "", rng.choice(fs)]),
                ex=rng.choice(["", "", rng.choice(fs)]))
    s.place("F", rng.randint(1, 8), True)
    order = list(range(n - 1))
    rng.shuffle(order)
    for i in order:
        a = [("P%d" % i, 1)]
        if rng.random() < 0.2:
            a.append(("F", 1))
        s.trans("T%d" % i, a, [("P%d" % (i + 1), 1)], cf=[c for c in cs if rng.random() < 0.15], rna=rng.random() < 0.1)
    if rng.random() < 0.7:       # back, as long as there is fuel
        s.trans("back", [("P%d" % (n - 1), rng.choice([1, 1, 2])), ("F", 1)], [("P%d" % rng.randrange(n - 1), 1)])
    if rng.random() < 0.3:
        s.trans("split", [("P%d" % (n - 2), 1), ("F", 2)], [("P%d" % (n - 1), 3)])
    for _ in range(rng.randint(1, 3)):
        s.exec()
        s.props()
        for _ in range(rng.randint(0, 2)):
            s.inc(rng.choice(["P0", "F"]))
        if cs and rng.random() < 0.6:
            s.setc(rng.choice(cs), rng.randint(0, 1))
    s.exec()
    s.props()
    s.finish()
    return s


def long_run(rng, cid):
    """Hundreds or thousands of firings in one execute()."""
    s = mk(cid, seq=True, policy=0)
    s.new("SINGLE_THREAD")
    f = s.act("a")
    n = rng.choice([70, 150, 300, 300, 700, 1100, 2100])
    kind = rng.choice("CCLF")
    acts = n <= 300 and rng.random() < 0.5
    en = "a" if acts else ""
    if kind == "C":             # one place drained into another
        s.place("P", n, True, ex=en if rng.random() < 0.5 else "")
        s.place("Q", rng.choice([0, 1]), False, en=en)
        s.trans("T", [("P", 1)], [("Q", 1)], rna=rng.random() < 0.3)
    elif kind == "L":           # a long chain, found in one pass or in as many passes as it is long
        m = rng.randint(20, 60)
        for i in range(m + 1):
            s.place("P%d" % i, rng.choice([1, 2]) if i == 0 else 0, i == 0, en="a" if i == m or acts and i % 7 == 0 else "")
        order = list(range(m))
        rng.shuffle(order)
        for i in order:
            s.trans("T%d" % i, [("P%d" % i, 1)], [("P%d" % (i + 1), 1)])
    else:                       # two places passing a token round, each round taking fuel
        s.place("F", n, True)
        s.place("P", 1, False, en=en)
        s.place("Q", 0, False)
        s.trans("T", [("P", 1), ("F", 1)], [("Q", 1)])
        s.trans("U", [("Q", 1)], [("P", 1)])
    s.exec()
    s.props()
    s.inc("F" if kind == "F" else "P0" if kind == "L" else "P")
    s.exec()
    s.props()
    s.finish()
    return s


def many_jobs(rng, cid, mode=None):
    """Many actions pending or running at once."""
    mode = mode or rng.choice(ASYNC)
    s = mk(cid, **cfgs(rng))
    s.new(mode)
    fs = [s.act("a%d" % i) for i in range(rng.randint(2, 4))]
    s.sleep(rng.choice([200, 500, 1500]), th=s.body(fs[0]))
    if rng.random() < 0.3:
        s.sleep(rng.choice([1, 3]), th=s.body(fs[1]))
    elif mode == "DETACHED" and rng.random() < 0.4:
        s.sleep(400, th=s.body(fs[1]))          # dozens to hundreds at the same time
    for i, f in enumerate(fs):
        s.place("P%d" % i, 0, True, en=f)
    running = rng.random() < 0.4
    if rng.random() < 0.4:
        s.place("Q", 0, False, en=rng.choice(fs[1:]))
        s.trans("T", [("P1", rng.choice([2, 3, 5]))], [("Q", 1)])
    if running:
        s.exec()
    k = rng.choice([12, 25, 40, 70, 130, 300] + [1100] * (mode == "JOB_QUEUE"))
    one = k >= 300 and rng.random() < 0.6       # nearly all of one place
    s.inc("P0")
    for _ in range(k):
        r = rng.random()
        s.inc("P%d" % (1 if one and r < 0.97 else rng.randrange(1, len(fs)) if r < 0.93 or mode == "JOB_QUEUE" else 0))
    if rng.random() < 0.5:
        s.sleep(rng.choice([1, 300]))
        for _ in range(rng.randint(1, 6)):
            s.inc("P%d" % rng.randrange(1, len(fs)))
    s.props()
    if rng.random() < 0.3:
        s.stop()
        s.setmode(rng.choice(MODES))
        s.inc("P1")
    s.sleep(3000)
    s.stop()
    s.finish()
    return s


def grow(rng, cid, mode=None, log=0.6):
    """A running net that grows: containers are reallocated while the loop, readers and the log look at them."""
    mode = mode or rng.choice(LOOP)
    s = mk(cid, **cfgs(rng))
    s.new(mode)
    f = s.act("a")
    c = s.cond("c", True)
    s.regact("na", f)
    s.regcond("nc", c)
    n = rng.choice([5, 8, 11, 12, 13])
    for i in range(n):
        s.place("P%d" % i, rng.choice([0, 0, 1]), i < 3, enN="na" if rng.random() < 0.2 else "")
    m = rng.choice([2, 6, 11, 12])
    for i in range(m):
        s.trans("T%d" % i, [("P%d" % rng.randrange(n - 1), rng.choice([1, 2]))],
                [("P%d" % (n - 1), 1)] if rng.random() < 0.3 else [], cn=["nc"] if rng.random() < 0.3 else [])
    uid = [0]

    def op(th):
        r = rng.random()
        uid[0] += 1
        u = uid[0]
        if r < 0.35:
            s.place("N%d" % u, rng.choice([0, 1]), True, enN="na" if rng.random() < 0.3 else "", th=th)
        elif r < 0.5:
            s.trans("V%d" % u, [("P%d" % rng.randrange(n), 1)], [], cn=["nc"] if rng.random() < 0.3 else [], th=th)
        elif r < 0.65:
            s.regact("x%d" % u, f, th=th) if rng.random() < 0.5 else s.regcond("x%d" % u, c, th=th)
        elif r < 0.85:
            s.inc("P%d" % rng.randrange(3), th=th)
        elif r < 0.9:
            s.tok("P%d" % rng.randrange(n), th=th)
        elif r < 0.95:
            s.simple("print", th)
        else:
            s.props(th)
    if rng.random() < 0.3:
        s.setsleep(rng.choice([1, 20]))
    s.exec(log=rng.random() < log)
    k = rng.choice([0, 1, 1, 2])
    for t in range(1, k + 1):
        for _ in range(rng.randint(1, 4)):
            op(t)
        s.spawn(t)
    for _ in range(rng.randint(3, 9)):
        op(0)
    for t in range(1, k + 1):
        s.join(t)
    s.sleep(rng.choice([0, 120]))
    s.stop()
    s.props()
    s.finish()
    return s


def job_queue_many(rng, cid):
    s = mk(cid, jq=1, **{k: v for k, v in cfgs(rng).items()})
    s.module, s.tracecfg = "JobQueueTrace.tla", "JobQueueTrace.cfg"
    fs = [s.act("j%d" % i) for i in range(rng.randint(2, 4))]
    s.sleep(rng.choice([100, 250]), th=s.body(fs[0]))
    s.jop("jnew")
    for _ in range(rng.randint(1, 3)):
        x = rng.random()
        if x < 0.4:
            s.jop("jdeact")
        s.jop("jadd", fs[0])
        for _ in range(rng.choice([5, 12, 25, 40, 70])):
            s.jop("jadd", rng.choice(fs[1:]))
        if x < 0.4:
            if rng.random() < 0.5:
                s.sleep(rng.choice([1, 120]))
            s.jop("jact")
        if rng.random() < 0.6:
            s.sleep(rng.choice([1, 120, 300]))
        if rng.random() < 0.3:
            s.jop("jdeact")
            s.jop("jisact")
            s.jop("jact")
    if rng.random() < 0.6:
        s.h("drain")
    s.jop("jdel")
    s.h("drain")
    return s


# ---------------------------------------------------------------- nets of many places and transitions
def wide(rng, cid, mode=None, xml=None):
    mode = mode or rng.choice(MODES)
    seq = mode == "SINGLE_THREAD"
    s = mk(cid, seq=seq, **(dict(policy=0)))
    s.new(mode)
    xml = rng.random() < 0.6 if xml is None else xml
    np, nt = rng.choice([(18, 6), (40, 12), (70, 30)]), 0
    np, nt = np
    ed = Editor(rng, s, mode, np=np, nt=nt, acts=rng.randint(4, 12), conds=rng.randint(3, 9), anon=not xml)
    for n, f in zip(ed.an, ed.af):
        if xml or rng.random() < 0.7:
            s.regact(n, f)
            ed.ra[n] = f
    for n, f in zip(ed.cn, ed.cf):
        if xml or rng.random() < 0.7:
            s.regcond(n, f)
            ed.rc[n] = f
    names = ed.pn[:]
    rng.shuffle(names)

    def act(prob):
        return rng.choice(list(ed.ra)) if ed.ra and rng.random() < prob else None
    for p in names:
        kw = {}
        if act(1):
            e, x = act(0.4), act(0.3)
            kw = dict(enN=e) if e else {}
            if x:
                kw["exN"] = x
        inp = rng.random() < 0.6
        s.place(p, rng.choice([0, 0, 1, 2, 70, 300]), inp, **kw)
        ed.pl[p] = inp
    for t in ed.tn:
        def some(n):
            return [(p, rng.choice([1, 1, 2, 9, 300])) for p in rng.sample(ed.pn, n)]
        a = some(rng.choice([1, 2, 5, 12]))
        lo = min(ed.rank(p) for p, _ in a)
        d = [(p, w) for p, w in some(rng.choice([0, 1, 4, 12])) if ed.rank(p) > lo and p not in dict(a)]
        i = [(p, rng.choice([1, 1, 3])) for p, _ in some(rng.choice([0, 0, 2, 8]))]
        cn = [rng.choice(list(ed.rc)) for _ in range(rng.choice([0, 0, 1, 4, 11]))] if ed.rc else []
        kw = dict(cn=cn) if cn else {}
        s.trans(t, a, d, i, rna=rng.random() < 0.2, **kw)
        ed.tr[t] = dict(A=a, D=d, I=i)
    s.props()
    s.simple("print")
    for _ in range(rng.randint(3, 12)):
        ed.arc(rng.random() < 0.5)
        ed.inc()
        if rng.random() < 0.2:
            ed.place()
            ed.trans()
            ed.read()
    s.props()
    if xml:
        s.export("s1", 0)
        s.simple("del")
        s.new(rng.choice(MODES))
        for n, f in zip(ed.an, ed.af):
            s.regact(n, f)
        for n, f in zip(ed.cn, ed.cf):
            s.regcond(n, f)
        s.imp("s1")
        s.props()
        s.export("s2", 0)
        if rng.random() < 0.3:
            s.imp("s2")
            s.props()
    s.simple("print")
    s.finish()
    return s


# ---------------------------------------------------------------- transitions with many arcs, every place with actions
def fan(rng, cid, mode=None):
    """Few transitions with many arcs of different weights, self loops and resets among them; nearly every place has
    its own actions, so that each move can be seen."""
    mode = mode or rng.choice(["SINGLE_THREAD", "SINGLE_THREAD", "EVENT_LOOP", "JOB_QUEUE", "DETACHED"])
    seq = mode == "SINGLE_THREAD"
    s = mk(cid, seq=seq, **(dict(policy=0) if seq else cfgs(rng)))
    s.new(mode)
    np = rng.randint(6, 12)
    names = ["P%d" % i for i in range(np)]
    rng.shuffle(names)
    half = rng.randint(2, min(5, np - 4))
    src, dst = names[:half], names[half:]
    ws = [1, 2, 3, 4, 5, 8]
    if mode == "DETACHED":
        ws = [1, 2, 3]
    tok, trs = {}, []
    for j in range(rng.randint(1, 2)):
        a = [(p, rng.choice(ws)) for p in rng.sample(src, rng.randint(1, half))]
        d = [(p, rng.choice(ws)) for p in rng.sample(dst, rng.randint(1, len(dst)))]
        # tokens that come back: all of them, or fewer than were taken
        for p in rng.sample(dst, rng.choice([0, 0, 1, 2])):
            d = [x for x in d if x[0] != p]
            w = rng.choice(ws)
            a.append((p, w))
            d.append((p, w))
        for p, w in list(a):
            if p in src and w > 2 and rng.random() < 0.25:
                d.append((p, rng.randint(1, w - 1)))
        if not any(p in src and dict(d).get(p, 0) < w for p, w in a):
            a.append((src[0], 1)) if src[0] not in dict(a) else None
        rng.shuffle(a)
        rng.shuffle(d)
        trs.append((a, d))
        for p, w in a:
            tok[p] = max(tok.get(p, 0), w * rng.randint(1, 2) + rng.choice([0, 0, 1]))
    k = 0
    inputs = []
    for p in rng.sample(names, np):
        kw = {}
        for x, prob in (("en", 0.8), ("ex", 0.6)):
            if rng.random() < prob:
                f = "a%d" % k
                k += 1
                s.act(f)
                if mode in ASYNC:
                    async_body(rng, s, f) if rng.random() < 0.3 else None
                else:
                    sync_body(rng, s, f) if rng.random() < 0.3 else None
                kw[x] = f
        inp = rng.random() < 0.4
        inputs += [p] if inp else []
        s.place(p, min(tok.get(p, 0), 20), inp, **kw)
    for j, (a, d) in enumerate(trs):
        i = [(p, 1) for p in rng.sample(dst, 1) if p not in dict(a)] if rng.random() < 0.2 else []
        late = []
        if rng.random() < 0.3 and len(d) > 1:       # arcs added one by one
            late = [d.pop() for _ in range(rng.randint(1, len(d) - 1))]
        s.trans("T%d" % j, a, d, i)
        for p, w in late:
            s.addarc(p, "T%d" % j, "D", w)
    s.exec()
    for _ in range(rng.randint(0, 2)):
        if inputs:
            s.inc(rng.choice(inputs))
    if seq:
        s.exec()
    else:
        s.sleep(rng.choice([0, 150, 600]))
        s.stop()
    s.props()
    s.finish()
    return s


# ---------------------------------------------------------------- many asynchronous actions
def jobs(rng, cid, mode=None):
    mode = mode or rng.choice(ASYNC)
    s = mk(cid, **cfgs(rng))
    s.new(mode)
    fs = [s.act("a%d" % i) for i in range(rng.randint(2, 4))]
    for f in fs:
        r = rng.random()
        if r < 0.5:
            s.sleep(rng.choice([1, 20, 90, 250]), th=s.body(f))
        elif r < 0.65:
            s.h("yield", th=s.body(f))
    for i, p in enumerate(("P", "Q", "R")):
        s.place(p, rng.randint(0, 3) if i == 0 else 0, i < 2, en=rng.choice(["", rng.choice(fs), rng.choice(fs)]),
                ex=rng.choice(["", rng.choice(fs)]))
    s.trans("T", [("P", 1)], [("Q", 1)])
    s.trans("U", [("Q", rng.choice([1, 2]))], [("R", 1)], rna=rng.random() < 0.3)
    s.exec()
    k = rng.randint(0, 2)
    for t in range(1, k + 1):
        for _ in range(rng.randint(1, 3)):
            s.inc(rng.choice("PPQ"), th=t)
        s.spawn(t)
    for _ in range(rng.randint(1, 4)):
        s.inc(rng.choice("PQ"))
        if rng.random() < 0.3:
            s.sleep(rng.choice([1, 40, 120]))
    for t in range(1, k + 1):
        s.join(t)
    if rng.random() < 0.4:
        s.stop()
        if rng.random() < 0.5:
            s.inc("P")
            s.exec()
    s.sleep(rng.choice([0, 100, 2000]))
    s.stop()
    s.props()
    s.finish()
    return s


# ---------------------------------------------------------------- edits of a running net
def running_edits(rng, cid, mode=None):
    mode = mode or rng.choice(LOOP)
    s = mk(cid, **cfgs(rng))
    s.new(mode)
    fs = [s.act("a%d" % i) for i in range(2)]
    c = s.cond("c", rng.random() < 0.8)
    slow_cond(rng, s, c)
    s.regact("na", "a0")
    s.regcond("nc", "c")
    s.place("P", rng.randint(0, 2), True, enN=rng.choice(["", "na"]))
    s.place("Q", 0, True, ex=rng.choice(["", "a1"]))
    s.place("R", 0, True)
    s.trans("T", [("P", 1)], [("Q", 1)], cn=["nc"] if rng.random() < 0.3 else [], rna=rng.random() < 0.2)
    s.trans("U", [("Q", 2)], [], [("R", 1)] if rng.random() < 0.4 else [])
    uid = [0]

    def op(th):
        r = rng.random()
        uid[0] += 1
        u = uid[0]
        if r < 0.16:
            s.place(rng.choice(["N%d" % u, "N%d" % u, "P", ""]), rng.randint(0, 2), True,
                    enN=rng.choice(["", "na", "zz"]) if rng.random() < 0.4 else "", th=th)
        elif r < 0.34:
            s.trans(rng.choice(["V%d" % u, "V%d" % u, "T"]), [(rng.choice("PQR"), rng.choice([1, 1, 2]))], [],
                    cn=[rng.choice(["nc", "nc", "zz"])] if rng.random() < 0.3 else [], th=th)
        elif r < 0.42:
            s.addarc("R", "T", rng.choice("DAIB"), 1, th=th)
        elif r < 0.48:
            s.rmarc("Q", "T", rng.choice("DB"), th=th)
        elif r < 0.52:
            s.simple("clear", th)
        elif r < 0.56:
            s.setmode(rng.choice(MODES), th=th)
        elif r < 0.60:
            s.exec(th=th)
        elif r < 0.64:
            s.regact("n%d" % rng.randint(1, 3), rng.choice(fs), th=th)
        elif r < 0.68:
            s.regcond("n%d" % rng.randint(1, 3), c, th=th)
        elif r < 0.80:
            s.inc(rng.choice(["P", "Q", "R", "N1"]), th=th)
        elif r < 0.84:
            s.tok(rng.choice(["P", "Q", "N1"]), th=th)
        elif r < 0.88:
            s.props(th)
        elif r < 0.91:
            s.simple("print", th)
        elif r < 0.95:
            s.simple(rng.choice(["running", "getmode", "getsleep"]), th)
        else:
            s.setsleep(rng.choice([30, 100, 1000]), th=th)
    s.exec()
    k = rng.choice([0, 1, 1, 2])
    # a thread that might turn the mode into SINGLE_THREAD or start a cyclic net only while it is running: never stopped here
    for t in range(1, k + 1):
        for _ in range(rng.randint(1, 3)):
            op(t)
        s.spawn(t)
    for _ in range(rng.randint(3, 7)):
        op(0)
    for t in range(1, k + 1):
        s.join(t)
    s.sleep(rng.choice([0, 120, 400]))
    s.simple("running")
    s.stop()
    s.props()
    s.finish()
    return s


# ---------------------------------------------------------------- engines destroyed at any moment
def deletes(rng, cid):
    s = mk(cid, **cfgs(rng))
    fs = [s.act("a%d" % i) for i in range(2)]
    for f in fs:
        if rng.random() < 0.7:
            s.sleep(rng.choice([1, 20, 120, 400]), th=s.body(f))
    c = s.cond("c", rng.random() < 0.7)
    slow_cond(rng, s, c)
    for _ in range(rng.randint(1, 3)):
        mode = rng.choice(MODES)
        s.new(mode)
        s.place("P", rng.randint(0, 3), True, en=rng.choice(["", "a0"]), ex=rng.choice(["", "a1"]))
        s.place("Q", 0, True, en=rng.choice(["", "a1"]))
        s.trans("T", [("P", 1)], [("Q", 1)], cf=["c"] if rng.random() < 0.4 else [], rna=rng.random() < 0.3)
        if rng.random() < 0.4:
            s.trans("U", [("Q", 1)], [], cf=["c"] if rng.random() < 0.3 else [])
        if rng.random() < 0.3:
            s.setsleep(rng.choice([10, 60000]))
        for _ in range(rng.randint(0, 5)):
            r = rng.random()
            if r < 0.35:
                s.exec()
            elif r < 0.7:
                s.inc(rng.choice("PQ"))
            elif r < 0.8:
                s.stop()
            elif r < 0.9:
                s.sleep(rng.choice([1, 30, 100]))
            else:
                s.setc(c, rng.randint(0, 1))
        s.simple("del")
        if rng.random() < 0.4:
            s.sleep(rng.choice([1, 50, 500]))
        if rng.random() < 0.5:
            s.h("drain")
    s.h("drain")
    return s


# ---------------------------------------------------------------- several engines
def engines(rng, cid, n=None, modes=None):
    """Several engines alive at once, with the same names of places, transitions and functions; client threads
    work on all of them, and the actions of one may use another."""
    k = n or rng.choice([2, 2, 2, 3])
    pool = modes or rng.choice([MODES, LOOP, ASYNC, ("JOB_QUEUE",), ("SINGLE_THREAD",), ("DETACHED", "JOB_QUEUE")])
    mode = [rng.choice(pool) for _ in range(k)]
    seq = all(m == "SINGLE_THREAD" for m in mode) and rng.random() < 0.7
    s = mk(cid, seq=seq, **(dict(policy=0) if seq else cfgs(rng)))
    nets = [None] * k
    used = [False] * k          # by the actions of another engine
    tog = rng.random() < 0.5    # all engines exist before any has a net
    calls = not seq and rng.random() < 0.6

    def cross(g):
        def body(rng, sc, f):
            (async_body if mode[g] in ASYNC else sync_body)(rng, sc, f)
            if not calls or g == k - 1 or rng.random() < 0.4:
                return
            b = sc.body(f)
            h = rng.randrange(g + 1, k)
            used[h] = True
            sc.g = h
            for _ in range(rng.randint(1, 2)):
                r = rng.random()
                if r < 0.6:
                    sc.inc("P0", th=b)
                elif r < 0.8:
                    sc.tok(rng.choice(["P0", "P1"]), th=b)
                else:
                    sc.simple(rng.choice(["running", "getmode", "print"]), b)
            sc.g = g
        return body

    def build(g):
        s.g = g
        nets[g] = Net(rng, s, np=rng.randint(2, 4), nt=rng.randint(1, 3), acts=rng.randint(1, 2),
                      conds=rng.randint(0, 1), tok=1, body=cross(g), rna=rng.choice([0, 0, 0.4]), w=0.15, slow=0.15)
    for g in range(k):
        s.g = g
        s.new(mode[g])
        if not tog:
            build(g)
    for g in range(k if tog else 0):
        build(g)
    for g in rng.sample(range(k), k):
        s.g = g
        if rng.random() < 0.85:
            s.exec(log=rng.random() < 0.4)

    def op(th):
        g = s.g = rng.randrange(k)
        net = nets[g]
        r = rng.random()
        if r < 0.45:
            s.inc(rng.choice(net.inputs), th=th)
        elif r < 0.55:
            s.tok(rng.choice(net.places), th=th)
        elif r < 0.6:
            s.props(th)
        elif r < 0.64:
            s.simple("print", th)
        elif r < 0.69:
            s.simple(rng.choice(["running", "getmode", "getsleep"]), th)
        elif r < 0.76:
            s.stop(th=th)
        elif r < 0.86:
            s.exec(th=th)
        elif r < 0.89:
            s.setsleep(rng.choice([20, 100, 1000]), th=th)
        elif r < 0.92 and net.conds:
            s.setc(rng.choice(net.conds), rng.randint(0, 1), th=th)
        elif r < 0.95:
            s.regact("n9", rng.choice(net.fn), th=th)
        else:
            s.sleep(rng.choice([1, 30, 100, 250]), th=th)
    c = 0 if seq else rng.choice([0, 1, 1, 2])
    for t in range(1, c + 1):
        for _ in range(rng.randint(1, 3)):
            op(t)
        s.spawn(t)
    for _ in range(rng.randint(3, 7)):
        op(0)
    if rng.random() < 0.35 and not used[0]:     # one of them goes while the others stay
        for t in range(1, c + 1):
            s.join(t)
        c = 0
        s.g = 0
        s.simple("del")
        for _ in range(rng.randint(0, 2)):
            s.g = rng.randrange(1, k)
            rng.choice([lambda: s.inc(rng.choice(nets[s.g].inputs)), lambda: s.exec(), lambda: s.props(),
                        lambda: s.simple("running")])()
        s.g = 0
        mode[0] = rng.choice(pool if not seq else ("SINGLE_THREAD",))
        s.new(mode[0])
        s.props()
        s.place("P0", 1, True)
        s.place("P1", 0, True)
        s.trans("T0", [("P0", 1)], [("P1", 1)])
        nets[0].inputs, nets[0].places, nets[0].conds = ["P0", "P1"], ["P0", "P1"], []
        for _ in range(rng.randint(1, 4)):
            op(0)
    for t in range(1, c + 1):
        s.join(t)
    s.sleep(rng.choice([0, 150, 400]))
    if rng.random() < 0.3:      # through the same exporter
        x = rng.choice([0, 1])
        for g in range(k):
            s.g = g
            s.stop()
            s.export("s%d" % g, x * g)
        if rng.random() < 0.6 and not calls:
            a, b = rng.sample(range(k), 2)
            s.g = a
            if rng.random() < 0.7:
                s.simple("clear")
            s.imp("s%d" % b)
    for g in range(k):
        s.g = g
        if rng.random() < 0.6:
            s.stop()
        s.props()
    if calls:       # no action may use an engine that is gone
        for g in range(k):
            s.g = g
            s.stop()
        s.h("drain")
    order = rng.sample(range(k), k)
    for g in order:
        s.g = g
        s.simple("del")
        if not calls and rng.random() < 0.3 and g != order[-1]:
            s.g = order[-1]
            s.props()
    s.h("drain")
    return s


def queues(rng, cid):
    """Several job queues; jobs of one may use another."""
    s = mk(cid, **cfgs(rng))
    s.module, s.tracecfg = "JobQueueTrace.tla", "JobQueueTrace.cfg"
    k = rng.choice([2, 2, 3])
    for g in range(k):
        s.g = g
        for i in range(rng.randint(1, 2)):
            s.act("j%d" % i)
    for g in range(k):
        s.g = g
        b = s.body("j0")
        r = rng.random()
        if r < 0.35:
            s.sleep(rng.choice([1, 50, 150, 250]), th=b)
        elif r < 0.45:
            s.h("yield", th=b)
        elif r < 0.8 and g < k - 1:
            s.g = rng.randrange(g + 1, k)
            s.jop(rng.choice(["jadd", "jadd", "jact", "jisact"]), "j0", th=b) if rng.random() < 0.7 else \
                s.jop("jdeact", th=b)
    for g in range(k):
        s.g = g
        s.jop("jnew")

    def op(th):
        s.g = rng.randrange(k)
        r = rng.random()
        if r < 0.55:
            s.jop("jadd", rng.choice([f for f in ("j0", "j1") if s.fid(f) in s.fns]), th=th)
        elif r < 0.67:
            s.jop("jdeact", th=th)
        elif r < 0.8:
            s.jop("jact", th=th)
        elif r < 0.88:
            s.jop("jisact", th=th)
        else:
            s.sleep(rng.choice([1, 60, 120, 300]), th=th)
    c = rng.choice([0, 1, 1, 2])
    for t in range(1, c + 1):
        for _ in range(rng.randint(1, 3)):
            op(t)
        s.spawn(t)
    for _ in range(rng.randint(3, 9)):
        op(0)
    for t in range(1, c + 1):
        s.join(t)
    if rng.random() < 0.5:
        for g in range(k):
            s.g = g
            s.jop("jact")
        s.h("drain")
    for g in range(k):      # a job may only use later ones
        s.g = g
        s.jop("jdel")
    s.h("drain")
    return s


def refused(rng, cid, mode=None):
    """The system refuses the thread a call needs; the engine must stay usable."""
    mode = mode or rng.choice(LOOP)
    s = mk(cid, **cfgs(rng))
    s.new(mode)
    fs = [s.act("a%d" % i) for i in range(rng.randint(1, 3))]
    for f in fs:
        r = rng.random()
        if r < 0.4:
            s.sleep(rng.choice([1, 40, 150]), th=s.body(f))
        elif r < 0.5:
            s.h("yield", th=s.body(f))
    rna = rng.random()
    for p in "PQ":
        s.place(p, rng.randint(0, 2), True, en=rng.choice(fs + [""]), ex=rng.choice(fs + ["", ""]))
    s.place("R", 0, True, en=rng.choice(fs + ["", ""]))
    s.trans("T", [("P", rng.choice([1, 1, 2]))], [("R", 1)] if rng.random() < 0.6 else [], rna=rng.random() < rna)
    s.trans("U", [("Q", 1)], [("R", 1)] if rng.random() < 0.4 else [], rna=rng.random() < rna)
    on = False
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        fail = rng.random() < 0.45
        if r < 0.3 and not on:
            if fail:
                s.h("failthread")
            s.exec(rng.random() < 0.2)
            on = not fail
            if fail and rng.random() < 0.4:
                s.simple("running")
            if fail and rng.random() < 0.4:
                getattr(s, rng.choice(["stop", "props"]))()
            if fail and rng.random() < 0.3:
                s.addarc("R", "T", "I")
        elif r < 0.7:
            if fail:
                s.h("failthread")
            s.inc(rng.choice("PPQQR"))
        elif r < 0.78:
            s.sleep(rng.choice([1, 120, 400]))
        elif r < 0.86:
            s.stop()
            on = False
        elif r < 0.9:
            s.simple("running")
        elif r < 0.93:
            s.tok(rng.choice("PQR"))
        elif r < 0.96:
            s.setmode(rng.choice(LOOP))
        elif not on:
            s.simple("clear")
            for p in "PQR":
                s.place(p, 0, True, en=rng.choice(fs))
            s.trans("T", [("P", 1)], [("R", 1)], rna=True)
            s.trans("U", [("Q", 1)], [], rna=True)
    if rng.random() < 0.7:      # everything still works
        s.stop()
        s.setmode(rng.choice([mode, mode, rng.choice(MODES)]))
        s.inc("P")
        s.exec()
        s.inc(rng.choice("PQR"))
        s.sleep(1500)
        s.props()
        s.stop() if rng.random() < 0.6 else None
    s.finish()
    return s


def queue_refused(rng, cid):
    """The same for a job queue."""
    s = mk(cid, jq=1, **cfgs(rng))
    s.module, s.tracecfg = "JobQueueTrace.tla", "JobQueueTrace.cfg"
    fs = [s.act("j%d" % i) for i in range(3)]
    for f in fs:
        if rng.random() < 0.5:
            s.sleep(rng.choice([1, 50, 150]), th=s.body(f))
    s.jop("jnew")
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        if r < 0.65:
            if r < 0.5 and rng.random() < 0.4:
                s.h("failthread")
            s.jop("jadd", rng.choice(fs)) if r < 0.45 else s.jop("jact")
        elif r < 0.8:
            s.jop("jdeact")
        elif r < 0.88:
            s.jop("jisact")
        else:
            s.sleep(rng.choice([1, 60, 300]))
    if rng.random() < 0.5:
        s.jop("jact") if rng.random() < 0.5 else s.jop("jadd", "j0")
        s.h("drain")
    s.jop("jdel")
    s.h("drain")
    return s
