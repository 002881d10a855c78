#!/opt/venv/bin/python
"""Check driver.

  run.py check Cxx [quick|thorough]     verify one property against /repo's current tree
  run.py replay FILE                    run a stored counterexample against the real code
  run.py list

For every contract unit of the property: the package source is extracted mechanically from /repo, executed over
symbolic inputs of unbounded size, and every postcondition becomes an obligation for the prover.  An obligation that
is not discharged is a violation; a concrete input is then searched for (z3 models of the same obligation at small
sizes, branch choices of the failing path, random inputs) by running the same contract on the real code.
"""
import os
import sys
import json
import time
import importlib
import traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", "/tmp")
sys.dont_write_bytecode = True
if HERE not in sys.path:
    sys.path.insert(0, HERE)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
REPO = os.environ.get("VF_REPO", "/repo")

TIERS = {
    "quick": dict(sym_limit=240.0, budget=30.0, conc=12, conc_limit=40.0, search_limit=100.0, wall=840.0),
    "thorough": dict(sym_limit=900.0, budget=120.0, conc=200, conc_limit=600.0, search_limit=600.0, wall=6000.0),
}


def contracts():
    from vf import contract
    contract.REPO = REPO
    d = os.path.join(HERE, "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            importlib.import_module("contracts." + f[:-3])
    return contract


def setup_child():
    sys.setrecursionlimit(20000)
    if VT not in sys.path:
        sys.path.append(VT)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass


def trace_functions(seen):
    """record which functions of the package are entered (measured coverage)"""
    mon = sys.monitoring
    tool = 3
    pre = os.path.join(REPO, "pypfopt") + os.sep
    mon.use_tool_id(tool, "vf")

    def start(code, off):
        if code.co_filename.startswith(pre):
            q = code.co_qualname.split(".<locals>")[0]
            seen.add(code.co_filename[len(pre):-3].replace(os.sep, ".") + "." + q)
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def job_sym(key, cfg):
    contract = contracts()
    from vf import loader, prove as pv, term as tm, core
    import threading
    u = contract.UNITS[key]
    seen = set()
    trace_functions(seen)
    t0 = time.time()
    V, errs = contract.run_sym(u, loader.VF(REPO), dims=None, budget=cfg["budget"],
                               limit=u.opts.get("limit", cfg["sym_limit"]))
    out = {"unit": key, "paths": getattr(V, "paths", 0), "time": time.time() - t0, "errors": [list(e) for e in errs],
           "functions": sorted(x for x in seen if "<" not in x), "stats": dict(pv.STATS),
           "assumptions": sorted(str(a) for a in getattr(core.CTX, "assumptions", ())), "obligations": []}
    fails = []
    for o in V.obligations.values():
        d = {"name": o.name, "ok": o.ok, "how": o.how, "time": round(o.t, 4)}
        if not o.ok:
            d["reason"] = o.reason
            d["goal"] = tm.show(o.goal)[:2000]
            d["path"] = [tm.show(c)[:300] for c in o.pc][:40]
            if o.failed:
                d["residual"] = tm.show(o.failed[1])[:2000]
            fails.append((o, contract.path_hints(V, o)))
        out["obligations"].append(d)
    out["path_hints"] = [h for _, h in fails][:20]
    return out


def job_conc(key, cfg, seed0):
    contract = contracts()
    u = contract.UNITS[key]
    mined = contract.mine_literals()
    t0 = time.time()
    st = {"ok": 0, "skip": 0, "fail": 0, "checked": 0, "undecided": 0, "fails": [], "sample": None}
    n = u.opts.get("conc", cfg["conc"])
    n = max(n, cfg["conc"]) if cfg.get("thorough") else n
    for s in range(n):
        if time.time() - t0 > cfg["conc_limit"]:
            break
        V, r = contract.run_conc(u, seed0 * 1000003 + s, mined=mined)
        st[r] += 1
        st["checked"] += V.checked
        st["undecided"] += V.undecided
        if r == "ok" and st["sample"] is None:
            st["sample"] = _short(V.used)
        if r == "fail":
            st["fails"].append(_fail(u, V, seed0 * 1000003 + s, None))
            break
    st["time"] = time.time() - t0
    return st


def _short(d):
    s = json.dumps(d, default=str)
    return d if len(s) < 3000 else s[:3000]


def _fail(u, V, seed, hints):
    return {"unit": u.key, "seed": seed, "hints": hints, "inputs": json.loads(json.dumps(V.used, default=str)),
            "obligation": V.fails[0][0], "detail": str(V.fails[0][1])[:4000]}


def job_search(key, cfg, seed0, path_hints, part, parts):
    """find a concrete input violating a failed obligation"""
    contract = contracts()
    from vf import loader
    u = contract.UNITS[key]
    if u.opts.get("search_with"):       # the unit that runs the same function as a whole
        u = contract.UNITS[u.opts["search_with"]]
        path_hints, part = [], part + 2
    mined = contract.mine_literals()
    t0 = time.time()
    tried = 0

    def attempt(seed, hints, maxdim=5):
        nonlocal tried
        tried += 1
        V, r = contract.run_conc(u, seed, hints=hints, mined=mined, maxdim=maxdim)
        if r == "fail":
            f = _fail(u, V, seed, hints)
            f["maxdim"] = maxdim
            return f
        return None
    lim = cfg["search_limit"]
    if part < 2:
        # models at small sizes
        size = 2 + part
        for sz in (size, 1 if part == 0 else 4):
            if time.time() - t0 > lim * 0.6:
                break
            try:
                V, errs = contract.run_sym(u, loader.VF(REPO), dims={"*": sz}, budget=10.0, limit=lim * 0.4)
            except BaseException:
                continue
            for o in V.obligations.values():
                if o.ok:
                    continue
                h = contract.model_hints(V, o) or contract.path_hints(V, o)
                for k in range(4):
                    f = attempt(k, h)
                    if f:
                        return {"found": f, "tried": tried}
    k = 0
    phs = [h for h in path_hints if h] or [None]
    while time.time() - t0 < lim:
        s = 7919 * (seed0 + 1) + part + parts * k
        h = phs[k % len(phs)] if k % 3 != 2 else None
        f = attempt(s, h, maxdim=(3, 5, 8, 30)[k % 4])
        if f:
            return {"found": f, "tried": tried}
        k += 1
    return {"found": None, "tried": tried}


def _entry(fn, args, conn):
    setup_child()
    try:
        r = fn(*args)
    except MemoryError:
        r = {"crash": "out of memory"}
    except BaseException as e:
        r = {"crash": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-8))}
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


class Pool:
    def __init__(self, n):
        self.n = n

    def run(self, jobs, stop=None):
        """jobs: list of (tag, fn, args, limit) -> dict tag -> result"""
        ctx = mp.get_context("fork")
        todo = list(jobs)
        live = []
        res = {}
        while todo or live:
            while todo and len(live) < self.n:
                tag, fn, args, limit = todo.pop(0)
                a, b = ctx.Pipe(False)
                p = ctx.Process(target=_entry, args=(fn, args, b))
                p.start()
                b.close()
                live.append((tag, p, a, time.time() + limit))
            time.sleep(0.01)
            for it in list(live):
                tag, p, a, dl = it
                done = None
                if a.poll(0):
                    try:
                        done = a.recv()
                    except EOFError:
                        done = {"crash": "worker died"}
                elif not p.is_alive():
                    done = {"crash": "worker died"}
                elif time.time() > dl:
                    done = {"crash": "time limit"}
                if done is not None:
                    if p.is_alive():
                        p.join(0.5)
                        if p.is_alive():
                            p.kill()
                    p.join()
                    a.close()
                    live.remove(it)
                    res[tag] = done
                    if stop is not None and stop(tag, done):
                        for _, q, c, _ in live:
                            q.kill()
                            q.join()
                            c.close()
                        return res
        return res


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p)).get("findings", [])
    return []


def check(prop, tier):
    t0 = time.time()
    cfg = dict(TIERS[tier])
    cfg["thorough"] = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if VT not in sys.path:
        sys.path.append(VT)
    # imported once, shared by the forked workers
    sys.setrecursionlimit(20000)
    try:
        contract = contracts()
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        import numpy, pandas, cvxpy, scipy.optimize, z3   # noqa
        import vf.shims  # noqa
    except Exception:
        traceback.print_exc()
    units = [u for u in contract.units_of(prop)]
    if not units:
        print("no contract units for", prop)
        return finish(prop, tier, seed, t0, [], [], [{"unit": prop, "obligation": "property has contract units",
                                                      "reason": "none registered", "replay": None}], {})
    pool = Pool(int(os.environ.get("VF_JOBS", "0")) or min(8, os.cpu_count() or 2))
    jobs = []
    order = sorted(units, key=lambda u: -u.opts.get("weight", 1))
    for u in order:
        if not u.opts.get("conc_only"):
            jobs.append((("sym", u.key), job_sym, (u.key, cfg), u.opts.get("limit", cfg["sym_limit"]) + 60))
    for u in order:
        if not u.opts.get("no_conc"):
            jobs.append((("conc", u.key), job_conc, (u.key, cfg, seed), cfg["conc_limit"] * 2 + 60))
    res = pool.run(jobs)
    syms, concs, viol = [], {}, []
    pend = []
    for u in units:
        c = res.get(("conc", u.key))
        concs[u.key] = c
        if c and c.get("fails"):
            f = c["fails"][0]
            pend.append((u, f["obligation"], "real execution violates the postcondition", f, []))
        s = res.get(("sym", u.key))
        if s is None:
            continue
        if "crash" in s:
            s = {"unit": u.key, "paths": 0, "time": 0, "errors": [["crash", s["crash"], ""]], "functions": [],
                 "stats": {}, "assumptions": [], "obligations": [], "path_hints": []}
        syms.append(s)
        bad = [o for o in s["obligations"] if not o["ok"]]
        if u.opts.get("bounded"):
            continue
        if bad:
            o = bad[0]
            pend.append((u, o["name"], o.get("reason", ""), None, s["path_hints"]))
        elif s["errors"]:
            e = s["errors"][0]
            pend.append((u, "%s: not decided (%s)" % (u.name, e[0]), e[1], None, s["path_hints"]))
        elif not s["obligations"]:
            pend.append((u, "%s: generates at least one obligation" % u.name, "vacuous", None, []))
    have = {p[0].key: p[3] for p in pend if p[3]}
    search = []
    seen = set()
    need = [p for p in pend if p[0].key not in have and not (p[0].key in seen or seen.add(p[0].key))]
    parts = max(1, min(8, 8 // max(1, len(need))))
    left = cfg["wall"] - (time.time() - t0)
    waves = -(-len(need) * parts // pool.n) if need else 1
    cfg["search_limit"] = max(10.0, min(cfg["search_limit"], left / max(1, waves) - 20))
    for u, ob, reason, _, ph in need:
        if u.opts.get("no_conc") and not u.opts.get("search_with"):
            continue
        for k in range(parts):
            search.append((("search", u.key, k), job_search, (u.key, cfg, seed, ph, k, parts), cfg["search_limit"] + 70))
    # one replayed input is enough to report the violation with it
    got = {}
    if search and not have:
        r = pool.run(search, stop=lambda tag, d: bool(d.get("found")))
        for tag, d in r.items():
            if d.get("found"):
                got[tag[1]] = d["found"]
    for u, ob, reason, f, ph in pend:
        f = f or have.get(u.key) or got.get(u.key)
        s = next((x for x in syms if x["unit"] == u.key), None)
        viol.append({"unit": u.key, "obligation": ob, "reason": reason, "input": f, "sym": s})
    return finish(prop, tier, seed, t0, units, syms, viol, concs)


def finish(prop, tier, seed, t0, units, syms, viol, concs):
    kf = [k for k in known_findings() if k["property"] == prop]
    known, fresh = [], []
    for v in viol:
        k = next((k for k in kf if k["unit"] == v["unit"] and k["obligation"] in (v["obligation"],
                  (v.get("input") or {}).get("obligation"))), None)
        (known if k else fresh).append((v, k))
    rdir = os.path.join(HERE, "evidence", "replay")
    lines = []
    if fresh:
        os.makedirs(rdir, exist_ok=True)
        fresh.sort(key=lambda x: x[0].get("input") is None)
        done = set()
        for v, _ in fresh:
            if v["unit"] in done:
                continue
            done.add(v["unit"])
            p = os.path.join(rdir, "%s.json" % v["unit"])
            s = v.get("sym")
            rec = {"property": prop, "unit": v["unit"], "obligation": v["obligation"], "reason": v["reason"],
                   "counterexample": v.get("input"),
                   "verifier": None if s is None else
                   {"errors": s["errors"], "failed": [o for o in s["obligations"] if not o["ok"]][:10]},
                   "replay_cmd": "/opt/venv/bin/python %s replay %s" % (os.path.join(HERE, "run.py"), p)}
            with open(p, "w") as fh:
                json.dump(rec, fh, indent=1, default=str)
            print("failed obligation: %s / %s   (%s)" % (v["unit"], v["obligation"], str(v["reason"])[:200]))
            if v.get("input"):
                print("   on the real code: %s: %s" % (v["input"]["obligation"], v["input"]["detail"][:400]))
            lines.append("VIOLATION property=%s replay=%s%s" % (prop, p, "" if v.get("input") else
                                                                 " no-failing-input-found"))
    for k in {id(k): k for _, k in known}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    obs = [(s["unit"], o) for s in syms for o in s["obligations"]]
    bounded = {u.key for u in units if u.opts.get("bounded")}
    back = {}
    for _, o in obs:
        if o["ok"]:
            back[o["how"]] = back.get(o["how"], 0) + 1
    proved_units = [s["unit"] for s in syms if s["unit"] not in bounded]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": sum(1 for k, o in obs if k not in bounded),
            "discharged": sum(1 for k, o in obs if o["ok"] and k not in bounded),
            "checker_cmd": "/opt/venv/bin/python /verif/run.py check %s %s" % (prop, tier),
            "trusted_base": ["vf: extraction (loader.py), path exploration and loop rules (core.py), "
                             "normal-form prover (term.py, prove.py)", "z3",
                             "assumed contracts on numpy/pandas/cvxpy/scipy/sklearn (npx.py, pdx.py, cpx.py, shims.py)"],
            "units": [{"unit": s["unit"], "paths": s["paths"], "obligations": len(s["obligations"]),
                       "discharged": sum(o["ok"] for o in s["obligations"]), "time_s": round(s["time"], 2),
                       "bounded": s["unit"] in bounded,
                       "names": sorted({o["name"] for o in s["obligations"]})} for s in syms],
            "by_backend": back,
            "solver_time_s": round(sum(o["time"] for _, o in obs), 2),
            "functions_under_contract": sorted({f for u in units if u.key not in bounded for f in u.funcs}),
            "functions_bounded_only": sorted({f for u in units for f in u.funcs} -
                                             {f for u in units if u.key not in bounded for f in u.funcs}),
            "functions_executed": sorted({f for s in syms for f in s["functions"]}),
            "conformance_runs": {k: {x: c.get(x) for x in ("ok", "skip", "fail", "checked", "undecided", "time")}
                                 for k, c in concs.items() if c},
            "samples": [{"unit": k, "inputs": c.get("sample")} for k, c in list(concs.items())[:2] if c],
        },
        "assumptions": sorted({a for s in syms for a in s["assumptions"]} |
                              {"machine arithmetic treated as exact real arithmetic in the proofs"} |
                              {"bounded, not proved: %s (%s)" % (u.key, u.opts["bounded"]) for u in units
                               if u.opts.get("bounded")} |
                              {a for u in units for a in u.opts.get("assume", ())}),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(lines),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("%s: %d units, %d/%d obligations discharged, %d concrete conformance runs, %.1fs" % (
        prop, len(units), ev["coverage"]["discharged"], ev["coverage"]["obligations"],
        sum((c or {}).get("ok", 0) for c in concs.values()), ev["wall_s"]))
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    return 1 if lines else 0


def replay(path):
    rec = json.load(open(path))
    f = rec.get("counterexample")
    print("property", rec["property"], "unit", rec["unit"], "obligation", rec["obligation"])
    if not f:
        print("no concrete input; verifier output:")
        print(json.dumps(rec["verifier"], indent=1)[:6000])
        return 1
    sys.path.append(VT)
    contract = contracts()
    u = contract.UNITS[f["unit"]]
    V, r = contract.run_conc(u, f["seed"], hints=f["hints"], mined=contract.mine_literals(), maxdim=f.get("maxdim", 5))
    print("inputs:", json.dumps(V.used, default=str)[:4000])
    for n, d in V.fails:
        print("violated:", n, "--", d)
    return 1 if V.fails else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "list":
        sys.path.append(VT)
        c = contracts()
        for k, u in c.UNITS.items():
            print(k, u.props, u.funcs, u.opts)
        return 0
    if a and a[0] == "replay":
        return replay(a[1])
    if a and a[0] == "check":
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        try:
            return check(a[1], tier if tier in TIERS else "quick")
        except Exception:
            traceback.print_exc()
            p = os.path.join(HERE, "evidence", "replay")
            os.makedirs(p, exist_ok=True)
            p = os.path.join(p, a[1] + "-driver.json")
            with open(p, "w") as fh:
                json.dump({"property": a[1], "unit": "driver", "obligation": "check completed", "counterexample": None,
                           "verifier": traceback.format_exc()}, fh)
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (a[1], p))
            return 1
    print(__doc__)
    return 2


if __name__ == "__main__":
    want = os.environ.get("VF_HASHSEED", "1")
    if os.environ.get("PYTHONHASHSEED") != want:      # same order of everything on every run
        os.environ["PYTHONHASHSEED"] = want
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main())
