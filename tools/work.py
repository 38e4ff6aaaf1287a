"""Which scenarios each property's check runs: property -> [(share, generator, options)].
An option value may be a function of the random generator."""
import gen

LOOP, ASYNC, SYNC, MODES = gen.LOOP, gen.ASYNC, gen.SYNC, gen.MODES


def ch(*xs):
    return lambda rng: rng.choice(xs)


EDIT_LOOP = dict(mode=ch(*LOOP), modes=LOOP, weights=dict(sleep=2, stop=3, setmode=1, clear=1))

WORK = {
    "C01": [(3, "seq_net", dict(inh=0.5, conds=lambda r: r.randint(0, 3))), (2, "conc_net", dict(inh=0.5, w=0.4)),
            (2, "stale", {}), (1, "edit_seq", dict(weights=dict(add=6, rm=5, exec=6, inc=5))), (1, "rna_net", {}),
            (1, "big_net", {}), (1, "single_clients", {}),
            (0.2, "wide", dict(xml=False)), (0.1, "long_run", {})],
    "C02": [(2, "big_net", {}), (3, "seq_net", dict(bidi=0.6, w=0.5, wmax=4, tok=6, nt=4)), (2, "producers", {}),
            (2, "conc_net", dict(w=0.4, bidi=0.5)), (1, "edit_seq", dict(weights=dict(exec=8, inc=6))),
            (0.3, "long_run", {}), (0.7, "fan", {})],
    "C03": [(3, "seq_net", dict(tok=4)), (1, "single_clients", {}), (1, "throws", dict(mode="SINGLE_THREAD")),
            (2, "cascade", {}), (1, "edit_seq", dict(weights=dict(exec=6, flip=3))),
            (0.7, "long_run", {}), (0.4, "fan", dict(mode="SINGLE_THREAD"))],
    "C04": [(1, "fair", {})],
    "C05": [(2, "seq_net", dict(exits=0.7, acts=2)), (4, "conc_net", dict(exits=0.7, acts=2)), (1, "producers", {}),
            (2, "pending", {}), (1, "big_net", {}), (1, "clients", {}),
            (0.3, "many_jobs", {}), (0.2, "long_run", {}), (1, "fan", {})],
    "C06": [(3, "seq_net", dict(exits=0.8, acts=3)), (2, "conc_net", dict(mode="EVENT_LOOP", exits=0.8, acts=3)),
            (2, "single_clients", {}), (2, "conc_net", dict(exits=0.8, acts=3)), (1, "edit_seq", dict(weights=dict(exec=6))),
            (0.3, "long_run", {}), (0.2, "many_jobs", dict(mode="JOB_QUEUE")), (1.5, "fan", {})],
    "C07": [(4, "conc_net", dict(mode="JOB_QUEUE", exits=0.6, acts=3)), (2, "pending", dict(modes=("JOB_QUEUE",))),
            (2, "jobs", dict(mode="JOB_QUEUE")), (1, "clients", dict(mode="JOB_QUEUE")), (1, "stops", dict(mode="JOB_QUEUE")),
            (0.8, "many_jobs", dict(mode="JOB_QUEUE")), (0.7, "engines", dict(modes=("JOB_QUEUE",))), (0.4, "fan", dict(mode="JOB_QUEUE"))],
    "C08": [(4, "conc_net", dict(mode="DETACHED", exits=0.6, acts=3)), (2, "pending", dict(modes=("DETACHED",))),
            (2, "jobs", dict(mode="DETACHED")), (1, "clients", dict(mode="DETACHED")), (1, "stops", dict(mode="DETACHED")),
            (0.8, "many_jobs", dict(mode="DETACHED")), (0.7, "engines", dict(modes=("DETACHED",)))],
    "C09": [(6, "rna_net", {}), (2, "conc_net", dict(rna=0.6)), (1, "rna_net", dict(throws=0.7)),
            (1, "pending", {}), (0.4, "engines", {})],
    "C10": [(5, "rna_net", dict(throws=ch(0, 0, 0.7))), (2, "conc_net", dict(rna=0.7)), (2, "pending", {}),
            (1, "throws", {}),
            (0.2, "many_jobs", {})],
    "C11": [(4, "conc_net", dict(clients=lambda r: r.randint(1, 3), setc=0)), (2, "producers", {}), (1, "jobs", {}),
            (2, "conc_net", dict(mode="EVENT_LOOP", setc=0, reads=0.1)), (1, "stops", {})],
    "C12": [(6, "timing", {}), (1, "conc_net", dict(setsleep=0.25)), (1, "stops", {})],
    "C13": [(7, "stops", {}), (2, "conc_net", dict(stops=0.9)), (1, "clients", {}), (0.4, "engines", dict(modes=LOOP))],
    "C14": [(4, "edit_seq", EDIT_LOOP), (3, "running_edits", {}), (1, "stops", dict(reads=0.25)), (1, "export_effects", {}),
            (1, "clients", {}),
            (1, "grow", {})],
    "C15": [(3, "clients", {}), (2, "conc_net", dict(rna=0.4)), (2, "stops", {}), (1, "single_clients", {}),
            (1, "pending", {}), (1, "rna_net", {}), (1, "running_edits", {}),
            (0.3, "many_jobs", {}),
            (0.5, "grow", {}), (0.7, "clients", dict(n=lambda r: r.randint(5, 7)))],
    "C16": [(4, "clients", dict(n=lambda r: r.randint(2, 3))), (2, "running_edits", {}), (2, "conc_net", dict(reads=0.6)),
            (2, "single_clients", {}), (1, "pending", {}),
            (2, "grow", {}), (1, "clients", dict(n=lambda r: r.randint(5, 7)))],
    "C17": [(4, "edit_seq", dict(names=ch("plain", "weird"), weights=dict(read=6), big=ch(False, True, False))),
            (1, "edit_seq", dict(names="weird", mode=ch(*MODES), modes=MODES, weights=dict(stop=2, sleep=1))),
            (1, "big_net", {}), (1, "import_file", dict(bads=0.0)),
            (0.6, "wide", {})],
    "C18": [(4, "edit_seq", dict(weights=dict(place=8, trans=9, inc=4, read=4), props=0.8, names=ch("plain", "weird"))),
            (2, "edit_seq", dict(mode=ch(*LOOP), modes=LOOP, weights=dict(place=8, trans=9, inc=5, stop=2, sleep=1),
                                 props=0.8)),
            (0.4, "wide", {})],
    "C19": [(4, "edit_seq", dict(weights=dict(add=12, rm=10, exec=5, inc=4), props=0.8, big=ch(False, False, True))),
            (2, "edit_seq", dict(mode=ch(*LOOP), modes=LOOP, weights=dict(add=10, rm=9, stop=4, sleep=1), props=0.8)),
            (1, "running_edits", {}),
            (0.6, "wide", dict(xml=False))],
    "C20": [(4, "edit_seq", dict(weights=dict(reg=10, place=6, clear=1.5, exec=4), names=ch("plain", "weird"), acts=4)),
            (2, "edit_seq", dict(mode=ch(*LOOP), modes=MODES, weights=dict(reg=8, place=6, clear=2, setmode=2, stop=4))),
            (1, "seq_net", dict(direct=0)),
            (0.5, "wide", {}),
            (0.5, "grow", {}), (0.4, "engines", {})],
    "C21": [(3, "edit_seq", dict(weights=dict(inc=12, exec=4, place=5), big=ch(False, True))), (2, "big_net", {}),
            (2, "edit_seq", dict(mode=ch(*LOOP), modes=MODES, weights=dict(inc=12, stop=2, sleep=1))),
            (2, "producers", {}), (1, "stops", {}),
            (0.3, "wide", dict(xml=False)), (0.2, "long_run", {})],
    "C22": [(4, "pending", dict(what="clear")), (2, "edit_seq", dict(weights=dict(clear=4, place=7, trans=7))),
            (2, "edit_seq", dict(mode=ch(*LOOP), modes=MODES, weights=dict(clear=4, stop=5, place=7, trans=7, sleep=1))), (0.4, "engines", {})],
    "C23": [(4, "pending", dict(what="setmode", modes=ch(ASYNC, ASYNC, LOOP))),
            (4, "edit_seq", dict(mode=ch(*MODES), modes=MODES, weights=dict(setmode=5, stop=6, inc=5, sleep=1)))],
    "C24": [(4, "export_import", {}), (2, "export_import", dict(big=True)), (1, "import_file", dict(bads=0.1)),
            (0.7, "wide", dict(xml=True))],
    "C25": [(5, "import_file", {}), (2, "import_file", dict(big=True)), (1, "export_import", {}),
            (0.3, "wide", dict(xml=True))],
    "C26": [(4, "export_effects", {}), (1, "export_import", {}),
            (0.2, "wide", dict(xml=True))],
    "C27": [(4, "throws", {}), (3, "throws", dict(mode="SINGLE_THREAD")), (2, "rna_net", dict(throws=0.8, mode=ch(*SYNC)))],
    "C28": [(3, "seq_net", dict(log=True)), (3, "conc_net", dict(log=0.9)), (1, "edit_seq", dict(weights=dict(read=8))),
            (1, "big_net", {}),
            (0.5, "wide", {}), (0.3, "long_run", {}), (1.5, "stops", dict(log=0.7)),
            (1, "grow", dict(log=0.9))],
    "C29": [(5, "pending", dict(what="del")), (2, "deletes", {}), (1, "stops", {}), (1, "conc_net", {}),
            (0.2, "many_jobs", {}), (1, "engines", {})],
    "C30": [(1, "job_queue", {}),
            (0.1, "job_queue_many", {})],
    "C32": [(3, "edit_seq", dict(weights=dict(drain=6, clear=2, reg=4, place=6, trans=6, exec=5), props=0.2)),
            (3, "edit_seq", dict(mode=ch(*LOOP), modes=MODES, weights=dict(drain=6, clear=3, stop=6, setmode=2, reg=4,
                                                                           place=6, trans=6, exec=5), props=0.2)),
            (2, "pending", dict(drain=True)), (1, "deletes", {}), (1, "clients", {}), (1, "throws", {}),
            (1, "export_import", {}), (1, "import_file", {}), (1, "engines", {}), (1, "job_queue", {}),
            (0.5, "stops", {}), (0.5, "rna_net", {}), (0.1, "many_jobs", {})],
    "C33": [(5, "refused", {}), (2, "queue_refused", {})],
    "C31": [(5, "engines", {}), (1, "queues", {}), (1, "engines", dict(n=3))],
}

# scenarios x runs of one round, number of rounds, by tier
BUDGET = {"quick": dict(scens=1000, runs=4, rounds=2), "thorough": dict(scens=2000, runs=8, rounds=12)}
OVERRIDE = {
    "C04": {"quick": dict(scens=24, runs=1, rounds=3), "thorough": dict(scens=120, runs=1, rounds=8)},
    "C31": {"quick": dict(scens=700, runs=4, rounds=2), "thorough": dict(scens=1500, runs=8, rounds=10)},
    "C30": {"quick": dict(scens=700, runs=4, rounds=3), "thorough": dict(scens=2500, runs=8, rounds=8)},
}


def scenarios(pid, rng, n, tag):
    """n scenarios of the mix of property pid, with ids starting with tag."""
    mix = WORK[pid]
    total = sum(m[0] for m in mix)
    out = []
    for share, name, opts in mix:
        for _ in range(max(1, round(n * share / total))):
            o = {k: (v(rng) if callable(v) else v) for k, v in opts.items()}
            s = getattr(gen, name)(rng, "%s%d" % (tag, len(out)), **o)
            s.gen = name
            s.held = pid == "C32"
            out.append(s)
    return out

# exhaustive exploration of the specification itself: options of mc.case per property
STOPPY = {"inc": 4, "stop": 4, "exec": 4, "running": 1, "setmode": 1}
MC = {
    "C01": dict(conds=1), "C02": {}, "C03": dict(mode="SINGLE_THREAD", clients=1), "C05": {}, "C06": dict(mode=ch(*SYNC)),
    "C07": dict(mode="JOB_QUEUE"), "C08": dict(mode="DETACHED"), "C09": dict(rna=1.0), "C10": dict(rna=1.0, throws=0.3),
    "C11": dict(mode=ch(*LOOP), ops={"inc": 5, "setsleep": 1, "tok": 1}), "C12": dict(conds=1, mode=ch(*LOOP), ticks=2),
    "C13": dict(ops=STOPPY), "C14": {}, "C15": dict(clients=2), "C16": dict(clients=2, ops={"inc": 3, "tok": 4, "stop": 2, "running": 2}),
    "C17": dict(ops={"place": 2, "trans": 2, "addarc": 2, "stop": 2}), "C18": dict(ops={"place": 4, "trans": 4, "inc": 2}),
    "C19": dict(ops={"addarc": 4, "rmarc": 4, "stop": 2, "exec": 2}), "C20": dict(direct=0), "C21": dict(ops={"inc": 6, "exec": 2, "stop": 2}),
    "C22": dict(ops={"clear": 4, "stop": 3, "place": 3, "inc": 2}), "C23": dict(ops={"setmode": 4, "stop": 3, "inc": 3, "exec": 2}),
    "C24": dict(direct=0, ops={"stop": 3, "inc": 3, "addarc": 2, "rmarc": 2}), "C25": dict(direct=0), "C26": dict(direct=0),
    "C27": dict(throws=0.7, mode=ch(*SYNC)), "C28": {}, "C29": dict(ops={"inc": 3, "del": 3, "stop": 1}), "C30": {},
    "C32": dict(ops={"clear": 3, "del": 2, "place": 3, "trans": 3, "stop": 2}),
    "C33": dict(rna=0.5, faults=2, mode=ch(*LOOP), ops={"inc": 5, "exec": 3, "stop": 3, "running": 1}),
    "C31": dict(ops={"inc": 4, "del": 1, "stop": 2, "exec": 2}),
}
MCBUDGET = {"quick": (14, 30000), "thorough": (150, 1500000)}
