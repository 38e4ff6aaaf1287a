#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's working tree."""
import copy, json, os, random, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fairness, mc, vlib, work
from vlib import CheckError

REPLAYS = os.path.join(vlib.VERIF, "replays")
EVIDENCE = os.path.join(vlib.VERIF, "evidence")
KNOWN = os.path.join(vlib.VERIF, "KNOWN_FINDINGS.txt")
SOFT = {"quick": 270, "thorough": 5400}     # seconds after which no further round is started


def known_findings(pid):
    """Lines 'finding: property=<id> match=<event>|<text in the trace's scenario>|... <what>'."""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                w = line.split(None, 3)
                if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + pid and w[2].startswith("match="):
                    out.append((w[2][6:].split("|"), w[3].strip()))
    return out


def is_known(findings, key):
    for parts, what in findings:
        if all(p in key for p in parts):
            return what
    return None


def confirm(runner, t):
    """Run the scenario again with the same schedule and validate again with a larger limit. The trace, whether it
    is rejected, and whether it is the same as before (code may depend on addresses, for instance)."""
    sc = t.sc
    old = sc.runs, sc.seed0, getattr(sc, "fixed_runs", None)
    sc.fixed_runs = 1
    try:
        recs = vlib.record(runner, [sc], 1, seed0=t.seed)
    finally:
        if old[2] is None:
            del sc.fixed_runs
        else:
            sc.fixed_runs = old[2]
    tr = [x for x in vlib.make_traces(recs) if x.g == t.g]
    same = bool(tr) and tr[0].ev == t.ev
    if not same:
        tr = [t]
    r = vlib.validate(tr[:1], limit=vlib.LIMIT * 20)
    return tr[0], bool(r.rejected), same


def hot_scenarios(scens, recs):
    """Scenarios in which accesses conflicted without synchronisation, to be run again with threads stopped
    there: whether that does any harm is for the specification to say."""
    hot = {}
    for sc, _, ev in recs:
        if ev and ev[-1]["e"] == "end" and ev[-1].get("racy"):
            hot.setdefault(sc.cid, set()).update(ev[-1]["racy"].split(":"))
    out, per = [], {}
    for sc in scens:
        if sc.cid not in hot:
            continue
        key = frozenset(hot[sc.cid])
        per[key] = per.get(key, 0) + 1
        if per[key] > 12 or len(out) >= 60:
            continue
        c = copy.copy(sc)
        c.cid = sc.cid + "h"
        c.cfg = dict(sc.cfg, hot=":".join(sorted(hot[sc.cid])), race=0)
        out.append(c)
    return out


def write_replay(pid, t, matched, how="trace"):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s-%d%s.json" % (pid, t.sc.cid, t.seed, "" if t.g is None else "-%d" % t.g))
    t.sc.runs, t.sc.seed0 = 1, t.seed
    with open(path, "w") as f:
        json.dump({"property": pid, "kind": how, "scenario": t.sc.text(), "seed": t.seed, "engine": t.g, "matched_events": matched,
                   "rejected_event": t.ev[matched] if matched < len(t.ev) else None, "trace": t.ev}, f, indent=1,
                  ensure_ascii=True)
    return path


def sample(t):
    return {"generator": getattr(t.sc, "gen", ""), "scenario": t.sc.text()[:1500], "seed": t.seed,
            "events": len(t.ev), "last_events": t.ev[-4:]}


def main():
    pid = sys.argv[1]
    tier = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--tier" else vlib.TIER
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    runner = vlib.build()
    t_build = time.time() - t0
    b = work.OVERRIDE.get(pid, {}).get(tier) or work.BUDGET[tier]
    findings = known_findings(pid)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], executions_recorded=0,
               distinct_traces=0, undecided=0, events=0, scenarios=0, rounds=0, by_generator={}, event_kinds={})
    violations, known = [], {}
    undecided = []

    def add_traces(recs, tag):
        tr = vlib.make_traces(recs)
        cov["distinct_traces"] += len(tr)
        for t in tr:
            g = getattr(t.sc, "gen", tag)
            cov["by_generator"][g] = cov["by_generator"].get(g, 0) + 1
            cov["events"] += len(t.ev)
            for e in t.ev:
                k = e["op"] if e["e"] == "call" else e["e"]
                cov["event_kinds"][k] = cov["event_kinds"].get(k, 0) + 1
        res = vlib.validate(tr)
        cov["states"] += res.states
        cov["transitions"] += res.transitions
        cov["traces_validated_against_impl"] += res.accepted
        undecided.extend(res.undecided)
        return tr, res

    def judge_rejected(rejected):
        once = []
        for t in rejected[:12]:
            c, bad, same = confirm(runner, t)
            if not bad:
                continue
            matched, acc = vlib.diagnose(c, limit=vlib.LIMIT * 20)
            if acc:
                continue
            cov["rejected_reproduced" if same else "rejected_not_reproduced"] = \
                cov.get("rejected_reproduced" if same else "rejected_not_reproduced", 0) + 1
            if not same:
                # an execution of the real code all the same; but one alone could be a mishap of the recording
                once.append(c)
                if len(once) < 3:
                    continue
            key = json.dumps(c.ev[matched] if matched < len(c.ev) else {}) + "\n" + c.sc.text()
            what = is_known(findings, key)
            if what:
                known[what] = known.get(what, 0) + 1
                continue
            violations.append((write_replay(pid, c, matched), c, matched))
            if len(violations) >= 3:
                return

    # the specification itself, on small programs: what its steps allow against the properties stated apart
    if pid in work.MC:
        n, limit = work.MCBUDGET[tier]
        tn, st, what = mc.explore(pid, work.MC[pid], n, limit, tier)
        cov.update(spec_states=st, spec_transitions=tn, spec_cases=n, spec_checked=what)

    for rnd in range(b["rounds"]):
        if rnd and (time.time() - t0 > SOFT[tier] or violations):
            break
        rng = random.Random("%d:%s:%d" % (vlib.SEED, pid, rnd))
        scens = work.scenarios(pid, rng, b["scens"], "%sr%d_" % (pid.lower(), rnd))
        cov["scenarios"] += len(scens)
        cov["rounds"] += 1
        if pid == "C04":
            for sc in scens:
                sc.cfg["race"] = 0
        recs = vlib.record(runner, scens, b["runs"], seed0=1 + rnd * 1000, spread=pid != "C04")
        cov["executions_recorded"] += len(recs)
        if pid != "C04":
            hot = hot_scenarios(scens, recs)
            if hot:
                more = vlib.record(runner, hot, 16, seed0=1 + rnd * 1000, spread=True)
                cov["executions_recorded"] += len(more)
                cov["race_directed_executions"] = cov.get("race_directed_executions", 0) + len(more)
                recs = more + recs
        if pid == "C04":
            bad, st, tn, no = fairness.judge(scens, recs)
            cov["states"] += st
            cov["transitions"] += tn
            cov["outcomes_checked"] = cov.get("outcomes_checked", 0) + no
            for sc, seed, what in bad:
                os.makedirs(REPLAYS, exist_ok=True)
                path = os.path.join(REPLAYS, "%s-%s.json" % (pid, sc.cid))
                with open(path, "w") as f:
                    json.dump({"property": pid, "kind": "fairness", "what": what, "scenario": sc.text()}, f, indent=1)
                violations.append((path, None, what))
            few, cnt = [], {}
            for r in recs:      # a few executions of each scenario also as traces
                cnt[r[0].cid] = cnt.get(r[0].cid, 0) + 1
                if cnt[r[0].cid] <= 6 and r[0].meta["kind"] != "repeat":
                    few.append(r)
            recs = few
        tr, res = add_traces(recs, pid)
        if rnd == 0:
            cov["samples"] = [sample(t) for t in tr[:: max(1, len(tr) // 3)][:3]]
        judge_rejected(res.rejected)
    # traces the search limit left open: once more with a larger limit
    if undecided and not violations:
        undecided.sort(key=lambda t: len(t.ev))
        again, rest = undecided[:16], undecided[16:]
        res = vlib.validate(again, limit=vlib.LIMIT * 12)
        cov["states"] += res.states
        cov["transitions"] += res.transitions
        cov["traces_validated_against_impl"] += res.accepted
        cov["undecided"] = len(res.undecided) + len(rest)
        judge_rejected(res.rejected)
    for what, n in known.items():
        print("KNOWN-FINDING: property=%s %s (%d executions)" % (pid, what, n))
    cov["build_s"] = round(t_build, 1)
    ev = dict(property=pid, tier=tier, seed=vlib.SEED, level="model_checking", coverage=cov,
              wall_s=round(time.time() - t0, 1), violations=len(violations),
              assumptions=["executions of the real code are those the virtual runtime schedules (sequentially consistent "
                           "interleavings at synchronisation and sampled memory accesses)",
                           "random choices of the engine are driven by the run's seed"])
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d scenarios, %d executions, %d distinct traces, %d accepted, %d undecided, %d states, %.0f s" % (
        pid, tier, cov["scenarios"], cov["executions_recorded"], cov["distinct_traces"],
        cov["traces_validated_against_impl"], cov["undecided"], cov["states"], time.time() - t0))
    for path, t, m in violations:
        if t is not None:
            print("  rejected event %d of %d in %s (seed %d, %s): %s" % (
                m, len(t.ev), t.sc.cid, t.seed, getattr(t.sc, "gen", ""), json.dumps(t.ev[m] if m < len(t.ev) else None)[:300]))
        else:
            print("  " + str(m))
    for path, t, m in violations:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as ex:
        print("CHECK-ERROR: %s" % ex, file=sys.stderr)
        sys.exit(2)
