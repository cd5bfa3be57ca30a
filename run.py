"""Decide one property of lsst.skymap.

  run.py ID [--tier quick|thorough]    explore, replay, write evidence/ID.json
  run.py --replay FILE                 run one recorded counterexample
  run.py --list                        the harnesses of every property
"""
import argparse
import importlib
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from symx import loader                      # noqa: E402

PROPS = os.path.join(HERE, "props")
EVID = os.path.join(HERE, "evidence")
MAXSAMPLES = 1500
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


def propmod(pid):
    return importlib.import_module("props." + pid.lower())


def jsonable(v):
    if isinstance(v, tuple):
        return [jsonable(x) for x in v]
    if isinstance(v, list):
        return [jsonable(x) for x in v]
    if isinstance(v, dict):
        return {k: jsonable(x) for k, x in v.items()}
    return v


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return "; ".join("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in tb[-3:])


def harness_fault(e):
    """An error made by the harness itself (an API it relies on is gone)."""
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1].filename if tb else ""
    if last.startswith(PROPS) and isinstance(e, (AttributeError, TypeError, NameError, ImportError)):
        return "'NoneType'" not in str(e)
    return isinstance(e, (ImportError,)) and not last.startswith(loader.PKG)


# ------------------------------------------------------------- symbolic side

def explore(job):
    """Worker: explore one harness with one parameter set."""
    pid, hname, params, budget, seed, over = job
    t0 = time.time()
    os.environ["VERIF_WORKER"] = "1"
    try:
        lib = loader.setup(True)
        from symx import core
        mod = propmod(pid)
        h = next(x for x in mod.HARNESSES if x.name == hname)
        opts = dict(h.opts)
        opts.update(over)
        opts.setdefault("budget_s", budget)
        opts["budget_s"] = min(opts["budget_s"], budget)

        def fn(ctx, **p):
            p.pop("_w", None)
            loader.fresh()
            return h.fn(ctx, lib, **p)
        run = core.Run(fn, params, seed=seed, harness_fault=harness_fault, **opts)

        def alarm(*a):
            raise core.Budget("time budget")
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(int(opts["budget_s"]) + 45)
        try:
            run.go()
        except core.Budget:
            run.truncated = "time budget"
        finally:
            signal.alarm(0)
            core.CUR = None
        d = run.as_dict()
    except Exception as e:
        d = dict(error="%s: %s (%s)" % (type(e).__name__, e, where(e)))
    d.update(harness=hname, params=jsonable(params), wall=time.time() - t0, functions=loader.functions())
    return d


# ------------------------------------------------------------- concrete side

def concrete(pid, hname, params, values):
    """One replay on the unmodified code.  Returns a result record."""
    from symx import core
    lib = loader.setup(False)
    mod = propmod(pid)
    h = next(x for x in mod.HARNESSES if x.name == hname)
    ctx = core.ConcreteCtx(values)
    loader.fresh()
    try:
        h.fn(ctx, lib, **{k: v for k, v in params.items() if k != "_w"})
    except core.Infeasible:
        return dict(status="infeasible")
    except core.CexFound:
        return dict(status="fail", label=ctx.failures[-1])
    except core.Unsupported as e:
        return dict(status="error", error="unsupported: %s" % e)
    except Exception as e:
        if harness_fault(e):
            return dict(status="error", error="%s: %s (%s)" % (type(e).__name__, e, where(e)))
        return dict(status="fail", label="no unexpected exception",
                    exception="%s: %s (%s)" % (type(e).__name__, e, where(e)))
    return dict(status="pass", labels=ctx.labels, reached=sorted(ctx.reached))


def replay_server():
    """Read jobs, one JSON per line; answer one JSON per line."""
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        j = json.loads(line)
        try:
            r = concrete(j["pid"], j["harness"], j["params"], j["values"])
        except BaseException as e:
            r = dict(status="error", error="%s: %s" % (type(e).__name__, e))
        out.write(json.dumps(r) + "\n")
        out.flush()


class Replayer:
    """A subprocess running unmodified code; restarted when it hangs."""

    def __init__(self, limit=60):
        self.p = None
        self.limit = limit

    def run(self, pid, harness, params, values):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([sys.executable, os.path.join(HERE, "run.py"), "--serve"],
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                      text=True, cwd=HERE)
        try:
            self.p.stdin.write(json.dumps(dict(pid=pid, harness=harness, params=params, values=values)) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            self.close()
            return dict(status="error", error="replay process died")
        import select
        r, _, _ = select.select([self.p.stdout], [], [], self.limit)
        if not r:
            self.close()
            return dict(status="fail", label="terminates", exception="no answer within %d s" % self.limit)
        line = self.p.stdout.readline()
        if not line:
            self.close()
            return dict(status="error", error="replay process died")
        return json.loads(line)

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


def replay_many(jobs, limit=200):
    rep = Replayer()
    out = []
    t0 = time.time()
    try:
        for j in jobs:
            out.append(rep.run(*j) if time.time() - t0 < limit else dict(status="late"))
    finally:
        rep.close()
    return out


# ------------------------------------------------------------------ one check

def fails(rep, pid, r, values):
    """Does a counterexample of this result fail on the unmodified code?"""
    res = rep.run(pid, r["harness"], r["params"], values)
    return res["status"] == "fail" and match_known(pid, r["harness"], r["params"], res["label"]) is None


def known_findings():
    fn = os.path.join(HERE, "known_findings.json")
    if not os.path.isfile(fn):
        return []
    with open(fn) as f:
        return json.load(f)["findings"]


def match_known(pid, harness, params, label):
    for k in known_findings():
        if k["property"] == pid and k["harness"] == harness and k["label"] == label and k["params"] == params:
            return k
    return None


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = propmod(pid)
    total = float(os.environ.get("VERIF_BUDGET", "600" if tier == "quick" else "6000"))
    jobs = []
    for h in mod.HARNESSES:
        for p in h.params(tier):
            over = {}
            if tier != "quick":
                over = dict(query_ms=120000, cross=h.opts.get("cross", 40))
            jobs.append((pid, h.name, p, h.opts.get("budget_s", 240) if tier == "quick" else total / 2, seed, over))
    jobs.sort(key=lambda j: -j[2].get("_w", 1))
    results = []
    ctx = multiprocessing.get_context("fork")
    rep, stopped = Replayer(), None
    with ctx.Pool(min(NPROC, len(jobs)), maxtasksperchild=4) as pool:
        it = pool.imap_unordered(explore, jobs)
        for _ in jobs:
            try:
                r = it.next(timeout=max(1.0, total + 80 - (time.time() - t0)))
            except multiprocessing.TimeoutError:
                stopped = "overall time budget"
                break
            results.append(r)
            if os.environ.get("VERIF_VERBOSE"):
                print("  %-24s %-50s paths %5s obl %5s %6.1fs %s%s" % (
                    r["harness"], json.dumps(r["params"])[:50], r.get("paths"),
                    r.get("stats", {}).get("obligations"), r["wall"],
                    r.get("truncated") or "", r.get("error") or ""), flush=True)
            # one violation that replays settles the answer
            if any(fails(rep, pid, r, v) for c in r.get("cexs", ())[:3] for v in c["candidates"][:3]):
                stopped = "violation found"
                break
        pool.terminate()
    rep.close()
    order = {}
    for i, j in enumerate(jobs):
        order[(j[1], json.dumps(jsonable(j[2]), sort_keys=True))] = i
    results.sort(key=lambda r: order[(r["harness"], json.dumps(r["params"], sort_keys=True))])

    # ---- replay everything the solver produced on the unmodified code
    todo = []                  # (kind, result, payload, job)
    for r in results:
        if r.get("error"):
            continue
        key = (pid, r["harness"], r["params"])
        for c in r["cexs"]:
            for v in c["candidates"]:
                todo.append(("cex", r, c, key + (v,)))
        for v in r["wits"]:
            todo.append(("wit", r, v, key + (v["values"],)))
        # paths the engine could not finish: their inputs, as the solver gave them
        for c in r["incon"]:
            for v in (c["values"] or []):
                todo.append(("sample", r, c, key + (v,)))
    rest = [t for t in todo if t[0] == "sample"]
    if len(rest) > MAXSAMPLES:
        step = len(rest) / MAXSAMPLES
        todo = [t for t in todo if t[0] != "sample"] + [rest[int(i * step)] for i in range(MAXSAMPLES)]
    chunks = [todo[i::NPROC] for i in range(NPROC)]
    chunks = [c for c in chunks if c]
    outs = []
    if chunks:
        with ctx.Pool(len(chunks)) as pool:
            res = pool.map(replay_many, [[t[3] for t in c] for c in chunks])
        for c, rr in zip(chunks, res):
            outs += list(zip(c, rr))

    violations, known, incons = [], {}, []
    repro = set()
    validated = matched = 0
    samples = []
    late = sum(res["status"] == "late" for _, res in outs)
    if late:
        incons.append("%d replays left out for lack of time" % late)
    for (kind, r, payload, job), res in outs:
        st = res["status"]
        if kind == "wit":
            if st == "pass":
                validated += 1
                if res["labels"] == payload["labels"]:
                    matched += 1
                if len(samples) < 6:
                    samples.append(dict(harness=r["harness"], params=r["params"], inputs=trim(job[3]),
                                        labels=trim(res["labels"]), replay="passes on the unmodified code"))
            elif st == "error":
                incons.append("%s: replay error %s" % (r["harness"], res["error"]))
        if st == "fail":
            repro.add(id(payload))
            k = match_known(pid, r["harness"], r["params"], res["label"])
            if k is not None:
                known[k["id"]] = k
                continue
            violations.append(dict(property=pid, harness=r["harness"], params=r["params"], values=job[3],
                                   label=res["label"], exception=res.get("exception"), found_by=kind,
                                   why=payload.get("why") if isinstance(payload, dict) else None))
    for r in results:
        tag = "%s %s" % (r["harness"], json.dumps(r["params"]))
        if r.get("error"):
            incons.append("%s: %s" % (tag, r["error"]))
            continue
        for c in r["cexs"]:
            if id(c) not in repro:
                incons.append("%s: counterexample to '%s' does not reproduce (encoding, not code) %s" % (
                    tag, c["label"], c.get("exception", "")))
        for c in r["incon"]:
            incons.append("%s: %s" % (tag, c["why"]))
        if r["truncated"] and r["truncated"] != "violation found":
            incons.append("%s: stopped early: %s" % (tag, r["truncated"]))
        if r["stats"]["unknown"]:
            incons.append("%s: %d queries undecided %s" % (tag, r["stats"]["unknown"], r["notes"][:2]))
    if stopped == "overall time budget":
        incons.append("%d harness runs not finished: %s" % (len(jobs) - len(results), stopped))
    vacuous = []
    for h in mod.HARNESSES:
        got = set()
        for r in results:
            if r["harness"] == h.name and not r.get("error"):
                got |= set(r["labels"]) | set(r["reached"])
        for lab in h.need:
            if lab not in got:
                vacuous.append("%s: '%s' never reached" % (h.name, lab))

    # ---- report
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    seen, paths = set(), []
    for v in violations:
        key = (v["harness"], json.dumps(v["params"], sort_keys=True), v["label"])
        if key in seen or len(paths) >= 5:
            continue
        seen.add(key)
        fn = os.path.join(EVID, "replay", "%s-%d.json" % (pid, len(paths) + 1))
        with open(fn, "w") as f:
            json.dump(v, f, indent=1)
        paths.append((fn, v))
    ok = [r for r in results if not r.get("error")]
    funcs = sorted(set(f for r in results for f in r["functions"]))
    tot = {k: sum(r["stats"][k] for r in ok) for k in
           ("queries", "solver_s", "branches", "obligations", "discharged", "trivial", "unknown", "cvc5")}
    labels = {}
    for r in ok:
        for lab, n in r["labels"].items():
            labels[lab] = labels.get(lab, 0) + n
    cov = dict(
        states=sum(r["paths"] for r in ok),
        transitions=tot["branches"],
        traces_validated_against_impl=validated,
        traces_with_identical_label_sequence=matched,
        samples=samples or [dict(note="no path finished")],
        rule="a state is one feasible path of a harness through the real code, with every input on it symbolic; "
             "a transition is a branch whose two sides were both feasible",
        harness_runs=len(results), harness_runs_planned=len(jobs), stopped_early=stopped,
        obligations=tot["obligations"], discharged=tot["discharged"], discharged_without_query=tot["trivial"],
        queries=tot["queries"], solver_seconds=round(tot["solver_s"], 2), undecided=tot["unknown"],
        decided_by_cvc5=tot["cvc5"],
        cross_checked_with_cvc5=[sum(r["crossed"][0] for r in ok), sum(r["crossed"][1] for r in ok)],
        functions_encoded=funcs[:150], functions_encoded_count=len(funcs),
        bounds={h.name: h.bounds for h in mod.HARNESSES},
        parameters={h.name: [json.dumps(jsonable(p)) for p in h.params(tier)][:12] for h in mod.HARNESSES},
        labels=labels, inconclusive=incons[:25], inconclusive_count=len(incons),
        known_findings=sorted(known), vacuous=vacuous,
        outside=getattr(mod, "OUTSIDE", ""),
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=list(getattr(mod, "ASSUMES", ())) + COMMON_ASSUMES,
              wall_s=round(time.time() - t0, 2), violations=len(paths))
    os.makedirs(EVID, exist_ok=True)
    text = json.dumps(ev, indent=1)
    while len(text) > 60000 and cov["functions_encoded"]:
        cov["functions_encoded"] = cov["functions_encoded"][:len(cov["functions_encoded"]) // 2]
        cov["samples"] = cov["samples"][:2]
        cov["inconclusive"] = cov["inconclusive"][:5]
        text = json.dumps(ev, indent=1)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        f.write(text + "\n")
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    print("%s %s: %d harness runs, %d paths, %d branches, %d/%d obligations discharged, %d queries, "
          "%.1f s solver, %d witnesses replayed, %.1f s" % (
              pid, tier, len(results), cov["states"], cov["transitions"], tot["discharged"], tot["obligations"],
              tot["queries"], tot["solver_s"], validated, time.time() - t0))
    for s in incons[:10]:
        print("INCONCLUSIVE %s: %s" % (pid, s[:300]))
    for fn, v in paths:
        print("  %s %s: '%s' fails for %s %s" % (v["harness"], json.dumps(v["params"]), v["label"],
                                               json.dumps(trim(v["values"])), v["exception"] or ""))
        print("VIOLATION property=%s replay=%s" % (pid, fn))
    if paths:
        return 1
    if vacuous:
        for s in vacuous:
            print("VACUOUS %s: %s" % (pid, s))
        # Nothing was explored that could break the property: with undecided
        # paths this is lack of knowledge, without them a broken harness.
        return 0 if incons or stopped else 2
    return 0


COMMON_ASSUMES = [
    "lsst.geom, lsst.afw.geom and lsst.pex.exceptions are not installed; models/ supplies them from their documentation",
    "float arithmetic is real arithmetic plus an explicit rounding error per operation, |e| <= 2**-53*bound; "
    "inputs range over reals, replays use doubles",
    "the solver (z3 5.x, cvc5 as second opinion) and CPython are trusted",
]


def trim(d):
    if isinstance(d, dict) and len(d) > 14:
        d = dict(list(d.items())[:14])
        d["..."] = "..."
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--serve", action="store_true")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    if a.serve:
        return replay_server()
    if a.replay:
        with open(a.replay) as f:
            v = json.load(f)
        r = concrete(v["property"], v["harness"], v["params"], v["values"])
        print(json.dumps(r))
        if r["status"] == "fail":
            print("VIOLATION property=%s replay=%s" % (v["property"], a.replay))
            return 1
        return 0
    if a.list:
        for fn in sorted(os.listdir(PROPS)):
            if fn[0] == "c" and fn[1:3].isdigit() and fn.endswith(".py"):
                m = propmod(fn[:-3].upper())
                print(fn[:-3].upper(), [h.name for h in m.HARNESSES])
        return 0
    return check(a.pid, a.tier)


if __name__ == "__main__":
    sys.exit(main())
