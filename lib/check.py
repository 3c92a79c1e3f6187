"""Deciding one property: models, recording, trace validation, evidence."""
import concurrent.futures as cf
import json, os, random, sys, time, traceback
import fx
from fx import Cmd, History, ToolError


class Plan:
    """What one check does.  cmds are dealt to shards; pre/post bracket every
    process; shards may instead be given explicitly."""

    def __init__(self):
        self.models = []          # (module, cfg, env, workers)
        self.cmds = []
        self.pre, self.post = [], []
        self.shards = None        # explicit list of shards: each a list of histories
        self.runs = [("dbg", None), ("rel", None), ("dbg", "g")]
        self.from_cases = None    # function: model cases -> commands
        self.prepare = None       # function: (plan, work) after the builds
        self.module = "Trace"     # the specification that judges the histories
        self.transform = None     # function: events of a history -> events for TLC
        self.notes = []
        self.assumptions = []
        self.timeout = 60         # seconds without an answer until a call hangs


START = {"op": "start", "a": [], "n": [], "oc": "ok", "r": 0, "o": []}


def same(a, b):
    return a == b


def merge(plan, hists, recs):
    """One trace for TLC out of several recorded histories of the same commands:
    every history starts with a process start; an event that equals the event of
    the first history for the same command is not repeated."""
    trace, where = [], []
    first = {}
    for h, (evs, resps) in zip(hists, recs):
        if plan.transform:
            evs = plan.transform(h, evs, resps)
        trace.append(START)
        where.append(None)
        for i, e in enumerate(evs):
            c = h.cmds[i]
            if not c.stateful and first.get(id(c)) == e:
                continue
            first.setdefault(id(c), e)
            trace.append(e)
            where.append((h, i))
    return trace, where


def deal(plan, n):
    if plan.shards is not None:
        return [s for s in plan.shards if s]
    # neighbours (variations of one call) stay together
    g = max(1, min(8, len(plan.cmds) // (4 * n)))
    sh = [[] for _ in range(n)]
    for i, c in enumerate(plan.cmds):
        sh[i // g % n].append(c)
    return [[list(plan.pre) + s + list(plan.post)] for s in sh if s]


def order(plan, cmds, k):
    """every other run makes the calls in the opposite order"""
    mid = cmds[len(plan.pre):len(cmds) - len(plan.post)]
    if plan.shards is not None or k % 2 == 0 or any(c.stateful for c in mid):
        return cmds
    return cmds[:len(plan.pre)] + mid[::-1] + cmds[len(cmds) - len(plan.post):]


def do_shard(work, plan, shard, seed):
    hists = [History(order(plan, cmds, k), v, "%s/%s/%s" % (seed, k, j), mode, plan.timeout)
             for k, (v, mode) in enumerate(plan.runs) for j, cmds in enumerate(shard)]
    hists = [h for h in hists if h.cmds]
    recs = []
    for h in hists:
        recs.append(h.record(work))
        if recs[-1][0] and recs[-1][0][-1]["oc"] in ("crash", "hang"):
            break                          # the recording has an end that is refused
    hists = hists[:len(recs)]
    trace, where = merge(plan, hists, recs)
    bad, states = fx.validate(work, trace, plan.module)
    calls = sum(len(r[0]) for r in recs)
    return {"hists": hists, "recs": recs, "trace": trace, "where": where, "bad": bad,
            "states": states, "calls": calls, "shard": shard}


def confirm(work, plan, res):
    """Re-record the history of a rejected event and validate it again."""
    h, i = res["where"][res["bad"]]
    evs, resps = h.record(work, upto=i)
    evs2 = plan.transform(h, evs, resps) if plan.transform else evs
    t = [START] + evs2
    bad, _ = fx.validate(work, t, plan.module)
    if bad is None:
        return None
    return h, bad - 1, evs2[bad - 1], resps[bad - 1]


def brief(e, n=400):
    s = json.dumps(e, separators=(",", ":"))
    return s if len(s) <= n else s[:n] + "..."


def known_findings():
    p = os.path.join(fx.VERIF, "KNOWN_FINDINGS.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def run(pid, maker):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    rng = random.Random("%s/%d" % (pid, seed))
    plan = maker(rng, tier)
    work = fx.Work()
    try:
        return _run(pid, tier, seed, plan, work, t0)
    except ToolError as ex:
        print("ERROR: %s" % ex)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        work.close()


def _run(pid, tier, seed, plan, work, t0):
    variants = []
    for v, _ in plan.runs:
        if v not in variants:
            variants.append(v)
    with cf.ThreadPoolExecutor(2) as ex:
        fb = ex.submit(work.build, variants)
        fm = ex.submit(fx.run_models, work, plan.models)
        fb.result()
        models = fm.result()
    cases = [c for m in models for c in m["cases"]]
    if plan.from_cases:
        plan.from_cases(plan, cases)
    if plan.prepare:
        plan.prepare(plan, work)
    shards = deal(plan, fx.CORES)
    states = sum(m["distinct"] for m in models)
    trans = sum(m["generated"] for m in models)
    traces = calls = 0
    samples, violation, failed = [], None, None
    ops = {}
    distinct = set()
    with cf.ThreadPoolExecutor(fx.CORES) as pool:
        jobs = [pool.submit(do_shard, work, plan, s, seed) for s in shards]
        for job in cf.as_completed(jobs):
            if job.cancelled():
                continue
            try:
                res = job.result()
            except ToolError as ex:
                failed = failed or ex
                continue
            states += res["states"]
            trans += max(0, res["states"] - 1)
            traces += len(res["hists"])
            calls += res["calls"]
            for e in res["trace"]:
                ops[e["op"]] = ops.get(e["op"], 0) + 1
            if len(samples) < 4 and res["trace"]:
                k = (len(samples) * 37 + 5) % len(res["trace"])
                samples.append(brief(res["trace"][k], 600))
            if res["bad"] is not None and violation is None:
                violation = res
                for j in jobs:
                    j.cancel()
    if failed and violation is None:
        raise failed
    rc = 0
    nviol = 0
    if violation is not None:
        conf = confirm(work, plan, violation)
        if conf is None:
            # not repeatable alone: validate the complete recording again
            redo = do_shard(work, plan, violation["shard"], seed)
            if redo["bad"] is None:
                raise ToolError("a rejected event did not repeat: %s" %
                                brief(violation["trace"][violation["bad"]]))
            h, i = redo["where"][redo["bad"]]
            conf = (h, i, redo["trace"][redo["bad"]], {})
        h, i, e, resp = conf
        rdir = os.path.join(fx.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d.json" % (pid, tier, seed))
        lines = h.lines()
        keep = [0] + [k + 1 for k, c in enumerate(h.cmds) if c.stateful and k < i] + [i + 1]
        json.dump({"property": pid, "variant": h.variant, "tier": tier, "seed": seed,
                   "rejected_event": e, "command": h.cmds[i].describe(),
                   "locale": h.locale(work).get("VERIF_LOCALE", "C"),
                   "driver_lines": [lines[k] for k in keep],
                   "history_length": i + 1, "stderr": resp.get("stderr", ""),
                   "explanation": "spec/%s.tla has no step for this event: the specification "
                                  "does not allow the library to answer the call like this."
                                  % plan.module}, open(path, "w"), indent=1)
        print("rejected by the specification (%s build): %s" % (h.variant, brief(e, 1500)))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc, nviol = 1, 1
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": trans,
            "traces_validated_against_impl": traces,
            "calls_recorded": calls,
            "events_validated": sum(ops.values()),
            "events_by_operation": ops,
            "model_generated_cases": len(cases),
            "design_models": [{k: m[k] for k in ("model", "config", "parameters", "generated", "distinct")}
                              for m in models],
            "builds": variants,
            "locales": sorted({h for v in variants for h in
                               [work.locale().get("VERIF_LOCALE", "C") if v in ("rel", "asanrel") else "C"]}),
            "samples": samples,
        },
        "assumptions": plan.assumptions or [
            "the recorder (harness/driver.c) reports what the call did",
            "TLC evaluates the TLA+ definitions correctly"],
        "wall_s": round(wall, 2), "violations": nviol,
    }
    ed = os.path.join(fx.VERIF, "evidence")
    os.makedirs(ed, exist_ok=True)
    json.dump(ev, open(os.path.join(ed, pid + ".json"), "w"), indent=1)
    print("%s %s: %d events in %d histories (%d calls), %d model states, %.1f s: %s" %
          (pid, tier, sum(ops.values()), traces, calls, states, wall,
           "VIOLATION" if rc else "holds on everything explored"))
    return rc
