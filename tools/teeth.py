#!/usr/bin/env python3
"""The strength of the specification: teeth.py [property...]

Records calls of the real library as the checks do, falsifies each recorded
event in one place at a time (a byte of an output, its length, the returned
number, the way the call ended) and lists the falsified events that the
specification still allows.  Not run by a check.
"""
import copy, json, os, random, re, sys, tempfile, collections, concurrent.futures as cf
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, fx, props
from fx import History, event

rng = random.Random(7)
SKIP = {"start", "heap", "release", "cleanse2", "pair"}


def falsify(e):
    out = []
    def add(what, **kw):
        f = copy.deepcopy(e)
        f.update(kw)
        f["bad"] = what
        out.append(f)
    if e["op"] in SKIP:
        return out
    if e["oc"] != "ok":
        add("ended normally", oc="ok", r=0)
        add("ended well", oc="exit", r=0)
        if e.get("S"):
            i = rng.randrange(len(e["S"]))
            add("S[%d]" % i, S=e["S"][:i] + [e["S"][i] ^ 1] + e["S"][i + 1:])
            add("S cut", S=e["S"][:len(e["S"]) // 2])
        return out
    add("r+1", r=e["r"] + 1)
    if e["r"]:
        add("r=0", r=0)
        add("r-1", r=e["r"] - 1)
    for j, o in enumerate(e["o"]):
        def put(what, x):
            add("o%d %s" % (j + 1, what), o=e["o"][:j] + [x] + e["o"][j + 1:])
        if o:
            for i in {0, len(o) - 1, rng.randrange(len(o))}:
                put("byte %d of %d" % (i, len(o)), o[:i] + [o[i] ^ (1 << rng.randrange(8))] + o[i + 1:])
            put("shorter", o[:-1])
        put("longer", o + [0])
    add("crashed", oc="sig", r=11)
    return out


def one(pid, work):
    r = random.Random("%s/1" % pid)
    plan = props.CHECKS[pid](r, "quick")
    if plan.transform or plan.module != "Trace":
        return pid, None
    cases = [c for m in fx.run_models(work, plan.models) for c in m["cases"]] if plan.from_cases else []
    if plan.from_cases:
        plan.from_cases(plan, cases)
    if plan.prepare:
        plan.prepare(plan, work)
    if plan.shards is not None:
        cmds = plan.shards[0][0][:150]
    else:
        by = collections.defaultdict(list)
        for c in plan.cmds:
            if (c.only is None or "dbg" in c.only):
                by[c.op].append(c)
        curve = set(fx.CURVE)
        cmds = plan.pre + [c for op, l in sorted(by.items())
                           for c in r.sample(l, min(len(l), 12 if op in curve else 60))] + plan.post
    h = History(cmds, "dbg", 1, None, 60)
    evs, _ = h.record(work)
    trace = [check.START]
    for e in evs:
        if len(json.dumps(e)) < 20000:
            trace.append(e)
            if not e["op"].startswith("vast"):
                trace += falsify(e)
    res = collections.Counter()
    samples = {}
    lo, total = 0, sum(1 for e in trace if "bad" in e)
    base = trace
    skipped = 0
    while True:
        f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", dir=work.dir, delete=False)
        f.write("".join(json.dumps(e) + "\n" for e in trace))
        f.close()
        rc, out, _, _ = fx.tlc(work, "Teeth", env={"TRACE": f.name}, table=True)
        for m in re.findall(r'^<<"WRONG", (\d+)>>', out, re.M):
            e = trace[int(m) - 1]
            if "bad" not in e:
                raise SystemExit("recorded event refused: " + json.dumps(e)[:600])
            k = (e["op"], re.sub(r"byte \d+ of", "byte of", e["bad"]))
            res[k] += 1
            samples.setdefault(k, json.dumps(e)[:500])
        if '<<"DONE"' in out:
            break
        m = re.findall(r"^/\\ l = (\d+)$|^l = (\d+)$", out, re.M)
        if not m:
            raise SystemExit("TLC: " + out[-2000:])
        i = int(m[-1][0] or m[-1][1])          # no meaning: refused
        if "bad" not in trace[i - 1]:
            raise SystemExit("recorded event without meaning: " + json.dumps(trace[i - 1])[:600])
        # keep the state: recorded events of the past, judged once more
        trace = [e for e in trace[:i - 1] if "bad" not in e and e["op"] in ("start", "key_init", "key_uninit")] + trace[i:]
        skipped += 1
    return pid, (len(evs), total, skipped, res, samples)


def main():
    ids = sys.argv[1:] or sorted(props.CHECKS)
    work = fx.Work()
    try:
        work.build(["dbg", "rel", "asan", "asanrel", "sched"])
        with cf.ThreadPoolExecutor(4) as ex:
            for pid, r in ex.map(lambda p: one(p, work), ids):
                if r is None:
                    print(pid, "judged by another specification")
                    continue
                n, total, skipped, res, samples = r
                print("%s: %d events, %d falsified, %d allowed, %d without meaning" % (pid, n, total, sum(res.values()), skipped))
                for k, v in sorted(res.items()):
                    print("   %-12s %-22s %4d   %s" % (k[0], k[1], v, samples[k][:260]))
                sys.stdout.flush()
    finally:
        work.close()


main()
