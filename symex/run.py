"""Run the harness instances of one property, in parallel, and report."""
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYVBMC_REPO", "/repo")


class Inst:
    """One harness with its bounds."""

    def __init__(self, name, fn, bounds="", finding=None, validate=3, exact_next=True, **opts):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.finding = finding
        self.validate = validate
        self.exact_next = exact_next
        self.opts = opts


FUNCS = set()


def _watch():
    """Record which functions of the repository are executed (once each)."""
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return
    try:
        mon.use_tool_id(4, "verif")
    except ValueError:
        return

    def start(code, off):
        f = code.co_filename
        if f.startswith(REPO + "/"):
            FUNCS.add(f[len(REPO) + 1 :] + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)


def run_instance(inst, seed, tier, early=None):
    from . import poly as P
    from .engine import Con, Explorer, Infeasible, Inconclusive, Violated
    from .patch import real_mode

    t0 = time.time()
    P.EXACT_NEXT[0] = inst.exact_next
    if inst.opts.get("fp"):
        from . import fp

        fp.install()
    out = dict(
        name=inst.name, bounds=inst.bounds, finding=inst.finding, violations=[], problems=[], funcs=[], val_held=0,
        val_skipped=0,
    )
    ex = Explorer(inst.fn, inst.name, seed=seed, **inst.opts)
    # the harness on the real code with concrete values: validates harness
    # and encoding against the implementation
    held = 0
    val_viol = None
    fallback = 60
    for k in range(inst.validate * 12):
        if held >= inst.validate:
            break
        ex.seed = seed * 1000 + k
        r = ex.replay({}, {}, )
        if r[0] == "held":
            held += 1
        elif r[0] == "violated":
            val_viol = (ex.seed, r[1])
            break
        elif r[0] == "error":
            out["problems"].append("harness error on the real code: " + r[1])
            break
        else:
            out["val_skipped"] += 1
    out["val_held"] = held
    ex.seed = seed
    if val_viol is not None and early is not None:
        # reported even if the solver then takes too long to find its own
        early(dict(out, stats={}, wall=0, early=True, completed=False, violations=[
            dict(harness=inst.name, message=val_viol[1], expected="(concrete validation run)", values={}, uf={}, kinds={}, seed=val_viol[0])]))
    ex.run()
    out["violations"] += ex.violations
    out["problems"] += ex.problems
    out["completed"] = ex.completed
    if val_viol is not None and not out["violations"]:
        out["violations"].append(
            dict(harness=inst.name, message=val_viol[1], expected="(concrete validation run)", values={}, uf={}, kinds={}, seed=val_viol[0])
        )
    if out["problems"] and not out["violations"]:
        # undecided symbolically: completions of partial models, replayed
        for k in range(fallback):
            ex.seed = seed * 77777 + k
            r = ex.replay({}, {})
            if r[0] == "violated":
                out["violations"].append(
                    dict(harness=inst.name, message=r[1], expected="(solver undecided; concrete completion)", values={}, uf={}, kinds={}, seed=ex.seed)
                )
                break
    st = ex.stats
    out["stats"] = {k: v for k, v in st.__dict__.items()}
    out["wall"] = time.time() - t0
    out["funcs"] = sorted(FUNCS)
    return out


def _child(inst, seed, tier, conn):
    try:
        import resource

        lim = 12 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    _watch()
    try:
        r = run_instance(inst, seed, tier, conn.send)
    except BaseException as e:  # noqa: BLE001
        r = dict(
            name=inst.name, bounds=inst.bounds, finding=inst.finding, violations=[],
            problems=["checker crashed: " + "".join(traceback.format_exception(e))[-2500:]],
            funcs=[], stats={}, wall=0, val_held=0, val_skipped=0,
        )
    try:
        conn.send(r)
    except Exception as e:
        conn.send(dict(name=inst.name, bounds=inst.bounds, finding=inst.finding, violations=[], problems=[f"unsendable: {e}"], funcs=[], stats={}, wall=0, val_held=0, val_skipped=0))
    conn.close()


def run_all(insts, seed, tier, jobs=8, limit=800):
    ctx = mp.get_context("fork")
    todo = list(insts)
    running = []
    results = []
    early = {}
    t0 = time.time()
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(i, seed, tier, b), daemon=True)
            p.start()
            b.close()
            running.append((p, a, i, time.time()))
        still = []
        for p, a, i, ts in running:
            r = None
            if a.poll(0.02):
                try:
                    r = a.recv()
                    if r.get("early"):
                        early[id(i)] = (r, time.time())
                        still.append((p, a, i, ts))
                        continue
                except EOFError:
                    r = None
                    p.join(5)
                    r = dict(name=i.name, bounds=i.bounds, finding=i.finding, violations=[], problems=[f"worker died (exit {p.exitcode})"], funcs=[], stats={}, wall=time.time() - ts, val_held=0, val_skipped=0)
            elif not p.is_alive():
                if a.poll(0.1):
                    try:
                        r = a.recv()
                        if r.get("early"):
                            r = None
                    except EOFError:
                        pass
                if r is None and id(i) in early:
                    r = early[id(i)][0]
                if r is None:
                    r = dict(name=i.name, bounds=i.bounds, finding=i.finding, violations=[], problems=[f"worker died (exit {p.exitcode})"], funcs=[], stats={}, wall=time.time() - ts, val_held=0, val_skipped=0)
            elif id(i) in early and time.time() - early[id(i)][1] > 90:
                p.kill()
                r = early[id(i)][0]
            elif time.time() - t0 > limit:
                p.kill()
                r = dict(name=i.name, bounds=i.bounds, finding=i.finding, violations=[], problems=["time limit of the check"], funcs=[], stats={}, wall=time.time() - ts, val_held=0, val_skipped=0)
            if r is None:
                still.append((p, a, i, ts))
            else:
                p.join(10)
                results.append(r)
        running = still
    return results


def load_findings(prop):
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        d = json.load(f)
    return [e for e in d.get("findings", []) if e["property"] == prop]


def match_finding(findings, inst_finding, viol):
    for e in findings:
        if e["harness"] != viol["harness"]:
            continue
        if re.search(e["message"], viol["message"]):
            return e
    return None


def main(prop, mod, argv):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    replay = None
    a = list(argv)
    while a:
        x = a.pop(0)
        if x in ("quick", "thorough"):
            tier = x
        elif x == "--only":
            only = a.pop(0)
        elif x == "--replay":
            replay = a.pop(0)
    insts = mod.instances(tier)
    if replay:
        return do_replay(insts, replay)
    if only:
        insts = [i for i in insts if re.search(only, i.name)]
    limit = 840 if tier == "quick" else 6 * 3600
    res = run_all(insts, seed, tier, limit=limit)
    findings = load_findings(prop)
    rc = 0
    nviol = 0
    lines = []
    rdir = os.path.join(VERIF, "evidence", "replays")
    seen = set()
    for r in res:
        for k, v in enumerate(r["violations"]):
            e = match_finding(findings, r["finding"], v)
            if e is not None:
                if e["id"] not in seen:
                    seen.add(e["id"])
                    lines.append(f"KNOWN-FINDING: property={prop} {e['what']}")
                continue
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{prop}-{re.sub('[^A-Za-z0-9_.-]', '_', r['name'])}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, seed=v.get("seed", seed), tier=tier, **{q: v[q] for q in ("harness", "message", "expected", "values", "uf", "kinds")}), f, indent=1, default=str)
            nviol += 1
            lines.append(f"VIOLATION property={prop} replay={path}")
            lines.append(f"  {r['name']}: {v['message'][:600]}")
            rc = 1
    problems = [(r["name"], p) for r in res for p in r["problems"]]
    # Undecided harnesses are reported, here and in the evidence, as not
    # covered; with half of them undecided there is no verdict.
    undecided = {n for n, p in problems}
    if rc == 0 and 2 * len(undecided) >= max(1, len(res)):
        rc = 2
    # a finding that no longer shows is worth a note (not an alarm)
    for e in findings:
        if e["id"] not in seen and not only:
            lines.append(f"note: listed finding {e['id']} not observed on this tree")
    if os.environ.get("SYMTIME"):
        for r in sorted(res, key=lambda r: -r["wall"])[:15]:
            lines.append(f"  time {r['name']}: {r['wall']:.1f} s, {(r.get('stats') or {}).get('paths', 0)} paths")
    tot = {}
    labels = {}
    samples = []
    for r in res:
        for k, v in (r.get("stats") or {}).items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
            elif k == "labels":
                for a_, b_ in v.items():
                    labels[a_] = labels.get(a_, 0) + b_
            elif k == "samples":
                samples += v[:1]
    meta = getattr(mod, "META", {})
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=int(tot.get("paths", 0)),
            transitions=int(tot.get("decisions", 0)),
            traces_validated_against_impl=int(sum(r["val_held"] for r in res)),
            samples=samples[:4] or [{"harness": r["name"], "bounds": r["bounds"]} for r in res[:2]],
            explanation="Bounded symbolic execution of the real functions: 'states' are the symbolic paths explored to their end, "
            "'transitions' the branch decisions put to the solver; every assertion on every path is decided by z3 for all values "
            "of the symbolic inputs within the bounds.",
            harnesses=[dict(name=r["name"], bounds=r["bounds"], paths=(r.get("stats") or {}).get("paths", 0), wall_s=round(r["wall"], 2)) for r in res],
            functions_encoded=sorted({f for r in res for f in r["funcs"]}),
            queries=int(tot.get("queries", 0)),
            queries_unsat=int(tot.get("unsat", 0)),
            queries_sat=int(tot.get("sat", 0)),
            queries_unknown=int(tot.get("unknown", 0)),
            solver_s=round(tot.get("solver_s", 0.0), 2),
            assertions=int(tot.get("assertions", 0)),
            assertions_discharged=int(tot.get("discharged", 0)),
            discharged_by_normal_form=int(tot.get("trivial", 0)),
            rational_identities=int(tot.get("identities", 0)),
            infeasible_paths=int(tot.get("infeasible", 0)),
            assertion_kinds=labels,
            inconclusive=[f"{n}: {p[:500]}" for n, p in problems],
            known_findings=sorted(seen),
        ),
        assumptions=list(meta.get("assumptions", [])) + COMMON,
        wall_s=round(time.time() - t0, 2),
        violations=nviol,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    if problems:
        print(f"INCONCLUSIVE property={prop}: {len(undecided)} of {len(res)} harnesses not decided (not covered by this run)")
    for n, p in problems[:12]:
        print(f"  {n}: {p[:1500]}")
    print(
        f"{prop} {tier}: {len(res)} harnesses, {tot.get('paths', 0)} paths, {tot.get('queries', 0)} queries, "
        f"{tot.get('assertions', 0)} assertions ({tot.get('discharged', 0)} discharged), solver {tot.get('solver_s', 0):.1f} s, wall {time.time() - t0:.1f} s -> exit {rc}"
    )
    if "-v" in argv or os.environ.get("V"):
        for r in sorted(res, key=lambda r: -r["wall"]):
            st = r.get("stats") or {}
            print(f"    {r['name']:40s} {r['wall']:7.1f}s paths {st.get('paths')} q {st.get('queries')} unk {st.get('unknown')} val {r['val_held']}/{r['val_skipped']}")
    sys.stdout.flush()
    return rc


COMMON = [
    "symbolic numbers are mathematical reals extended with inf/nan cases (harnesses named fp:* use IEEE-754 binary64 instead)",
    "sizes, branches and loop counts are concrete per harness as listed in coverage.harnesses",
    "numpy/scipy/gpyreg primitives are interpreted by /verif/symex (validated on each run by executing the same harness on the real code)",
    "random draws are arbitrary values within the range of the generator",
]


def do_replay(insts, path):
    from . import poly as P
    from .engine import Explorer

    with open(path) as f:
        d = json.load(f)
    for i in insts:
        if i.name == d["harness"]:
            P.EXACT_NEXT[0] = i.exact_next
            ex = Explorer(i.fn, i.name, seed=d["seed"])
            vals = dict(d["values"])
            if d["uf"]:
                vals["__uf__"] = d["uf"]
            r = ex.replay(vals, d["kinds"])
            print(r)
            return 1 if r[0] == "violated" else 0
    print("no such harness")
    return 2


def cli():
    prop = sys.argv[1]
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    import logging
    import warnings

    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module(f"checks.{prop.lower()}")
    rc = main(prop, mod, sys.argv[2:])
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    cli()
