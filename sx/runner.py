"""Runs the cases of one property: explore symbolically, replay, report."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import resource
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
TIERS = {"quick": dict(case_s=150, total_s=600, paths=60000, keep=16, dump=0),
         "thorough": dict(case_s=2400, total_s=6000, paths=2000000, keep=48, dump=4)}


def load_symbolic(prop):
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3  # noqa: F401
    sys.path.remove("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sys.path.insert(0, REPO)
    from . import transform
    transform.install(REPO, "gemd")
    sys.meta_path.insert(0, transform.Finder(VERIF, "props", track=False))
    return importlib.import_module("props." + prop.lower())


def run_case(mod, case, cfg, seed):
    from . import engine, api, state
    SymT = api.make_sym()
    snap = state.Snapshot()
    deadline = min(time.time() + case.get("case_s", cfg["case_s"]), cfg["deadline"])
    e = engine.Engine(case["name"], deadline=deadline,
                      max_paths=case.get("paths", cfg["paths"]),
                      query_timeout_ms=case.get("query_ms", 60000), dump_queries=cfg["dump"],
                      seed=seed)
    fn = getattr(mod, case["fn"])
    t = SymT(e)
    t0 = time.time()

    def body():
        fn(t, **case.get("args", {}))
    e.explore(body, snap.restore, keep_models=cfg["keep"])
    return dict(name=case["name"], paths=e.paths, aborted=e.aborted, decisions=e.decisions,
                queries=e.queries, checks=e.checks, discharged=e.discharged,
                trivial=e.trivial_checks, solver_s=e.solver_s, max_query_s=e.max_query_s,
                unknown=e.unknown, pins=e.pin_sites, pinned_paths=e.pinned_paths,
                covers=e.covers, functions=sorted(e.functions), candidates=e.candidates,
                validate=e.validate, incomplete=e.incomplete, errors=e.errors[:3],
                dump=e.dump, wall=time.time() - t0)


def _worker(conn, mod, case, cfg, seed):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(8000)
        r = run_case(mod, case, cfg, seed)
    except BaseException as exc:
        r = dict(name=case["name"], failed="%s: %s" % (type(exc).__name__, exc),
                 trace=traceback.format_exc()[-3000:])
    conn.send_bytes(json.dumps(r).encode())
    conn.close()


def run_cases(mod, cases, cfg, seed):
    ctx = mp.get_context("fork")
    todo = sorted(cases, key=lambda c: -c.get("weight", 1))
    live, out = [], []
    while todo or live:
        while todo and len(live) < JOBS:
            c = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(b, mod, c, cfg, seed))
            p.start()
            b.close()
            live.append((p, a, c, time.time()))
        ready = mp.connection.wait([x[1] for x in live], timeout=1)
        for x in list(live):
            p, a, c, t0 = x
            res = None
            if a in ready:
                try:
                    res = json.loads(a.recv_bytes())
                except EOFError:
                    res = dict(name=c["name"], failed="worker died")
            elif time.time() > min(t0 + c.get("case_s", cfg["case_s"]), cfg["deadline"]) + 90:
                p.kill()
                res = dict(name=c["name"], failed="killed: solver exceeded the time budget")
            if res is not None:
                live.remove(x)
                p.join(10)
                if p.is_alive():
                    p.kill()
                out.append(res)
    return sorted(out, key=lambda r: r["name"])


def replay_batch(items):
    """Each item {prop, case, inputs, isolated} -> {status, msg, labels}."""
    if not items:
        return []
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, os.path.join(VERIF, "replay.py"), "--batch"],
                       input=json.dumps(items), capture_output=True, text=True, env=env)
    if p.returncode != 0:
        raise RuntimeError("replay failed: " + p.stderr[-2000:])
    return json.loads(p.stdout)


def load_known(prop):
    fn = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(fn):
        return []
    with open(fn) as fh:
        return [k for k in json.load(fh)["known"] if k["property"] == prop]


def cross_check(results, limit_s=900):
    """thorough: a sample of the discharged queries goes to cvc5 as well."""
    agree = disagree = other = 0
    t0 = time.time()
    for r in results:
        for smt, verdict in r.get("dump", []):
            if time.time() - t0 > limit_s:
                return dict(agree=agree, disagree=disagree, inconclusive=other, stopped=True)
            try:
                p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=20000", "--fp-exp"],
                                   input="(set-logic ALL)\n" + smt, capture_output=True,
                                   text=True, timeout=60)
                ans = p.stdout.strip().split("\n")[0]
            except Exception:
                ans = "error"
            if ans not in ("sat", "unsat") or verdict not in ("sat", "unsat"):
                other += 1
            elif ans == verdict:
                agree += 1
            else:
                disagree += 1
    return dict(agree=agree, disagree=disagree, inconclusive=other)


def main(prop, tier, only=None, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = dict(TIERS[tier])
    cfg["deadline"] = t0 + cfg["total_s"]
    broken_import = None
    try:
        mod = load_symbolic(prop)
    except Exception:
        broken_import = traceback.format_exc()
    if broken_import:
        print(broken_import)
        print("INCONCLUSIVE: the code cannot be loaded")
        return 3
    cases = mod.cases(tier)
    names = [c["name"] for c in cases]
    assert len(set(names)) == len(names), "duplicate case names"
    if only:
        cases = [c for c in cases if re.search(only, c["name"])]
    by_name = {c["name"]: c for c in cases}
    results = run_cases(mod, cases, cfg, seed)

    # replay: every counterexample alone in a fresh process, a sample of the explored paths as well
    items, meta = [], []
    for r in results:
        for cand in r.get("candidates", []):
            items.append(dict(prop=prop, case=by_name[r["name"]], inputs=cand["inputs"],
                              isolated=True))
            meta.append(("cand", r, cand))
        for v in r.get("validate", []):
            items.append(dict(prop=prop, case=by_name[r["name"]], inputs=v["inputs"],
                              isolated=False))
            meta.append(("path", r, v))
    replies = replay_batch(items)
    violations, spurious, validated, mismatch, skipped = [], [], 0, [], 0
    for it, (kind, r, x), rep in zip(items, meta, replies):
        st = rep["status"]
        if st in ("violation", "error"):
            violations.append((r["name"], rep["msg"], it))
        elif kind == "cand":
            spurious.append(dict(case=r["name"], msg=x["msg"], inputs=x["inputs"], replay=st))
        elif st == "skip" or not x.get("exact", True):
            skipped += 1
        elif rep["labels"] != x["labels"]:
            mismatch.append(dict(case=r["name"], inputs=x["inputs"], symbolic=x["labels"],
                                 concrete=rep["labels"]))
        else:
            validated += 1

    known = load_known(prop)
    fresh, listed = [], {}
    for name, msg, it in violations:
        for k in known:
            if re.search(k["case"], name) and re.search(k["msg"], msg):
                listed[k["what"]] = (name, msg)
                break
        else:
            fresh.append((name, msg, it))
    for what in sorted(listed):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    rdir = os.path.join(VERIF, "evidence", "replays")
    shown = set()
    for name, msg, it in fresh:
        if (name, msg) in shown:
            continue
        shown.add((name, msg))
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha1(json.dumps(it, sort_keys=True).encode()).hexdigest()[:10]
        fn = os.path.join(rdir, "%s-%s.json" % (prop, h))
        with open(fn, "w") as fh:
            json.dump(dict(it, isolated=True, msg=msg), fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, fn))
        print("  case %s: %s\n  inputs: %s" % (name, msg, show(it["inputs"])))
        if len(shown) >= 10:
            break

    ok = [r for r in results if "failed" not in r]
    functions = sorted(set(f for r in ok for f in r["functions"]))
    pins = {}
    for r in ok:
        for k, n in r["pins"].items():
            pins[k] = pins.get(k, 0) + n
    covers = {}
    for r in ok:
        for k, n in r["covers"].items():
            covers[k] = covers.get(k, 0) + n
    missing = [c for c in getattr(mod, "COVERS", {}).get(tier, getattr(mod, "COVERS", {}).get("all", []))
               if c not in covers] if not only else []
    incomplete = [dict(case=r["name"], why=r.get("failed") or r.get("incomplete"))
                  for r in results if r.get("failed") or r.get("incomplete")]
    samples = []
    for r in ok:
        if r["validate"] and len(samples) < 6:
            samples.append(dict(case=r["name"], inputs=show(r["validate"][0]["inputs"]),
                                outcome=r["validate"][0]["labels"]))
    cov = dict(
        states=sum(r["paths"] for r in ok),
        transitions=sum(r["decisions"] for r in ok),
        traces_validated_against_impl=validated,
        samples=samples,
        exhaustive=not incomplete and not pins and not spurious and not mismatch and
        not sum(r["unknown"] for r in ok),
        explanation="states = feasible symbolic paths explored to their end (each covers every "
                    "input value satisfying its path condition); transitions = branch decisions "
                    "put to the solver.",
        bounds=mod.BOUNDS if isinstance(mod.BOUNDS, (list, str)) else mod.BOUNDS[tier],
        cases=len(cases),
        functions_encoded=functions,
        functions_encoded_count=len(functions),
        queries=sum(r["queries"] for r in ok),
        assertions_checked=sum(r["checks"] for r in ok),
        assertions_discharged_by_solver=sum(r["discharged"] for r in ok),
        assertions_decided_by_the_path_condition=sum(r["trivial"] for r in ok),
        solver_s=round(sum(r["solver_s"] for r in ok), 2),
        max_query_s=round(max([r["max_query_s"] for r in ok] or [0]), 2),
        unknown_answers=sum(r["unknown"] for r in ok),
        infeasible_or_ended_paths=sum(r["aborted"] for r in ok),
        reachability_witnesses=covers,
        missing_witnesses=missing,
        concretised=pins,
        inconclusive_cases=incomplete,
        counterexamples_not_reproduced=spurious[:20],
        trace_mismatches=mismatch[:20],
        replays_outside_assumptions=skipped,
        source_sha1=source_digest(),
    )
    if tier == "thorough":
        cov["cvc5_cross_check"] = cross_check(ok)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=list(mod.ASSUMPTIONS), wall_s=round(time.time() - t0, 2),
              violations=len(shown))
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", prop + ".json")
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1)
    print("%s %s: %d cases, %d paths, %d decisions, %d queries (%.1f s solver), %d assertions, "
          "%d traces replayed, %.1f s" %
          (prop, tier, len(cases), cov["states"], cov["transitions"], cov["queries"],
           cov["solver_s"], cov["assertions_checked"], validated, time.time() - t0))
    for title, xs in (("inconclusive", incomplete), ("not reproduced", spurious),
                      ("trace mismatch", mismatch), ("missing witness", missing)):
        for x in xs[:8]:
            print("  %s: %s" % (title, x))
    if pins:
        print("  concretised: %s" % pins)
    if skipped:
        print("  replays outside assumptions: %d" % skipped)
    if verbose:
        for r in results:
            print("  - %-50s paths %6d aborted %5d queries %6d wall %.1f %s" % (
                r["name"], r.get("paths", -1), r.get("aborted", -1), r.get("queries", -1),
                r.get("wall", -1), r.get("failed", "")))
            if "trace" in r:
                print(r["trace"])
            for x in r.get("errors", []):
                print(x)
    return 1 if shown else 0


def show(inputs):
    out = {}
    for k, v in inputs.items():
        if v[0] == "float":
            out[k] = repr(float.fromhex(v[1]))
        elif v[0] == "str":
            out[k] = "".join(map(chr, v[1]))
        elif not k.endswith("#len"):
            out[k] = v[1]
    return out


def source_digest():
    h = hashlib.sha1()
    for root, dirs, files in os.walk(os.path.join(REPO, "gemd")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                with open(os.path.join(root, f), "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()
