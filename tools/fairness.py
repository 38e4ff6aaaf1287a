"""C04: are the outcomes of competitions all the ones the specification allows, with a fair share each?"""
import collections, json, os, re, shutil, tempfile
from vlib import CheckError, tlc, tlc_stats, JOBS


def finals(scens):
    """TLC: the final markings the firing rule allows, per scenario number."""
    tmp = tempfile.mkdtemp(prefix="vfin-")
    try:
        path = tmp + "/nets.json"
        with open(path, "w") as f:
            for i, s in enumerate(scens):
                ops = [{"op": o, "a": a} for n, (o, a) in sorted(s.ops.items())
                       if o in ("new", "place", "trans", "addarc", "rmarc", "inc", "exec")]
                # a running net: everything fires after the last input
                if s.ops[min(s.ops)][1]["mode"] != "SINGLE_THREAD":
                    ops = [o for o in ops if o["op"] != "exec"] + [{"op": "exec", "a": {"log": False, "st": 0}}]
                conds = [[fid, bool(x[1])] for fid, x in s.fns.items() if x[0] == "c"]
                f.write(json.dumps({"tid": i, "conds": conds, "ops": ops}) + "\n")
        rc, out = tlc("Finals.tla", "Finals.cfg", {"TRACES": path}, workers=JOBS)
        if "No error has been found" not in out:
            raise CheckError("TLC failed on Finals:\n" + out[-3000:])
        res = collections.defaultdict(set)
        for i, m in re.findall(r'<<"FINAL", (\d+), "(.*)">>', out):
            m = json.loads(m.replace('\\"', '"'))
            res[int(i)].add(tuple(sorted(m.items())))
        return res, tlc_stats(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def final_marking(raw):
    for e in reversed(raw):
        if e["e"] == "ret" and isinstance(e.get("v"), dict) and "places" in e["v"]:
            return tuple(sorted((p["name"], int(p["tok"])) for p in e["v"]["places"]))
    return None


def judge(scens, recs):
    """Returns (problems, states, transitions, outcomes checked)."""
    small = [s for s in scens if s.meta["kind"] != "repeat"]
    legal, (tn, st) = finals(small)
    seen = collections.defaultdict(collections.Counter)
    for sc, seed, raw in recs:
        seen[sc.cid][final_marking(raw)] += 1
    bad, n = [], 0
    for i, s in enumerate(small):
        got = seen[s.cid]
        total = sum(got.values())
        n += len(legal[i])
        for m in legal[i]:
            if got[m] < max(1, total // (12 * max(1, len(legal[i])))):
                bad.append((s, None, "final marking %s reached in %d of %d runs; the firing rule allows %d final markings"
                            % (dict(m), got[m], total, len(legal[i]))))
        for m in got:
            if m not in legal[i]:
                bad.append((s, None, "final marking %s is not allowed" % (dict(m) if m else None)))
    for s in scens:
        if s.meta["kind"] != "repeat":
            continue
        tot = collections.Counter()
        for m, c in seen[s.cid].items():
            for o in s.meta["outs"]:
                tot[o] += dict(m or ()).get(o, 0) * c
        n += len(s.meta["outs"])
        for o in s.meta["outs"]:
            if tot[o] < sum(tot.values()) / (12 * s.meta["k"]):
                bad.append((s, None, "in %d repeated conflicts of %d transitions the one marking %s won %d times"
                            % (sum(tot.values()), s.meta["k"], o, tot[o])))
    return bad, st, tn, n
