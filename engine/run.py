"""Runs the harnesses of one property, prints the verdict and writes the evidence."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _setup():
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent"
    for p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
        if p not in sys.path:
            sys.path.append(p)
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, repo)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    sys.setrecursionlimit(20000)


def _work(job):
    prop, hname, case, opts = job
    from engine import harness

    mod = importlib.import_module("checks." + prop)
    fn = mod.HARNESSES[hname]
    so = sys.stdout
    sys.stdout = open(os.devnull, "w")
    try:
        r = harness.explore(fn, case, opts)
    except BaseException as ex:  # an engine bug must not look like a verdict
        import traceback

        r = dict(case=case, errors=["driver: " + "".join(traceback.format_exc())[-1500:]], violations=[], unreproduced=[], paths=0)
    finally:
        sys.stdout.close()
        sys.stdout = so
    r["harness"] = hname
    return r


def earlier(jobs, alone):
    """For four of the smaller cases of every function: the same after an earlier use of the functions with other figures."""
    out = []
    groups = {}
    for j in jobs:
        if j[3].get("weight", 1) <= 5:
            groups.setdefault((j[1], j[2].get("fn"), tuple(k for k, v in j[2].items() if v is None)), []).append(j)
    for g in groups.values():
        for p, h, c, o in [g[i] for i in sorted({-(-len(g) * k // 4) - 1 for k in (1, 2, 3, 4)})]:
            out.append((p, h, dict(c, before=1, **({} if alone else dict(after=1))), dict(o)))
    return out


def load_known():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.startswith("known: "):
                    out.append(json.loads(line[7:]))
    return out


def match_known(known, prop, hname, v):
    """A finding suppresses only the harness, label and case it was recorded for."""
    for k in known:
        if k.get("status") != "known" or k.get("property") != prop or k.get("harness") != hname:
            continue
        if k.get("label") and not v["label"].startswith(k["label"]):
            continue
        if any(v["case"].get(a) != b for a, b in (k.get("case") or {}).items()):
            continue
        return k
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    a = ap.parse_args(argv)
    _setup()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("checks." + a.prop)
    total = 780 if a.tier == "quick" else 3300
    jobs = []
    for hname, case, opts in mod.cases(a.tier):
        if a.only and a.only not in hname:
            continue
        o = dict(time=total * 0.8, path_time=60)
        o.update(opts or {})
        jobs.append((a.prop, hname, case, o))
    jobs += earlier(jobs, getattr(mod, "ALONE", True))
    # heavier first when declared
    jobs.sort(key=lambda j: -j[3].get("weight", 1))
    results = []
    ctxm = mp.get_context("fork")
    err = []
    known = load_known()
    with ctxm.Pool(min(a.j, max(1, len(jobs))), maxtasksperchild=4) as pool:
        it = pool.imap_unordered(_work, jobs)
        for _ in range(len(jobs)):
            left = total - (time.time() - t0)
            try:
                results.append(it.next(timeout=max(1, left)))
            except mp.TimeoutError:
                err.append("time budget of the check exhausted")
                pool.terminate()
                break
            r = results[-1]
            if any(match_known(known, a.prop, r["harness"], v) is None for v in r["violations"]):
                # the verdict is in; the other cases get a little longer to add their own counterexamples
                total = min(total, time.time() - t0 + 90)
            if a.v:
                print(
                    r["harness"], json.dumps(r["case"], default=str)[:100], "paths", r.get("paths"), "feas", r.get("feasible"),
                    "obl", r.get("obligations"), "q", r.get("queries"), "solver", r.get("solver_s"), "wall", r.get("wall_s"),
                    "val", r.get("validated"), "mism", len(r.get("mismatches", [])), "viol", len(r["violations"]),
                    "unrep", len(r["unreproduced"]), "err", len(r["errors"]), "" if r.get("used_before", True) else "NOT USED BEFORE", flush=True,
                )  # fmt: skip
                for e in r["errors"][:4]:
                    print("   ERR", e)
                for e in r["unreproduced"][:3]:
                    print("   UNREP", json.dumps(e, default=str)[:1800])
                for e in r.get("mismatches", [])[:2]:
                    print("   MISM", json.dumps(e, default=str)[:700])
                for e in r["violations"][:6]:
                    print("   VIOL", e["label"], "|", e["observed"][:2], "|", json.dumps(e["inputs"], default=str)[:600])
    viol, kf = [], {}
    for r in results:
        for v in r["violations"]:
            k = match_known(known, a.prop, r["harness"], v)
            if k is not None:
                kf.setdefault(k["id"], k)
            else:
                viol.append((r, v))
    rc = 0
    for kid, k in sorted(kf.items()):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    if viol:
        rc = 1
        viol.sort(key=lambda x: (x[0]["harness"], x[1]["label"]))
        shown = set()
        for i, (r, v) in enumerate(viol):
            key = (r["harness"], v["label"].split(":")[0])
            if key in shown:
                continue
            shown.add(key)
            p = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (a.prop, len(shown)))
            with open(p, "w") as f:
                json.dump(
                    dict(property=a.prop, harness=r["harness"], case=v["case"], inputs=v["inputs"], label=v["label"], observed=v["observed"]),
                    f, indent=1, default=str,
                )  # fmt: skip
            print("VIOLATION property=%s replay=%s" % (a.prop, p))
            print("  harness %s: %s" % (r["harness"], v["observed"][0][:300]))
            if len(shown) >= 8:
                break
    for r in results:
        for e in r["errors"]:
            err.append("%s %s: %s" % (r["harness"], json.dumps(r["case"], default=str)[:120], e))
        for e in r["unreproduced"]:
            err.append("%s: counterexample not reproduced on the real code: %s" % (r["harness"], e["label"]))
        if r.get("truncated"):
            err.append("%s %s: exploration truncated" % (r["harness"], json.dumps(r["case"], default=str)[:120]))
        if not r.get("feasible") and not r["errors"]:
            err.append("%s %s: vacuous, no feasible path" % (r["harness"], json.dumps(r["case"], default=str)[:120]))
        elif not r.get("obligations") and not r["errors"] and not r["violations"]:
            err.append("%s %s: vacuous, no obligation reached" % (r["harness"], json.dumps(r["case"], default=str)[:120]))
        if len(r.get("mismatches", [])) > 2 * r.get("validated", 0) + 2:
            err.append("%s: encoding disagrees with the real code: %s" % (r["harness"], json.dumps(r["mismatches"][0], default=str)[:300]))
    if rc == 0 and err:
        rc = 2
    ent = {}
    for r in results:
        for k, n in (r.get("entered") or {}).items():
            ent[k] = ent.get(k, 0) + n
    S = lambda k: sum(r.get(k) or 0 for r in results)  # noqa: E731
    samples = []
    for r in results:
        for s in r.get("samples", [])[:1]:
            if len(samples) < 6:
                samples.append(dict(harness=r["harness"], **s))
    per = {}
    for r in results:
        d = per.setdefault(r["harness"], dict(cases=0, paths=0, obligations=0, queries=0, solver_s=0.0))
        d["cases"] += 1
        d["paths"] += r.get("feasible") or 0
        d["obligations"] += r.get("obligations") or 0
        d["queries"] += r.get("queries") or 0
        d["solver_s"] = round(d["solver_s"] + (r.get("solver_s") or 0), 3)
    ev = dict(
        property=a.prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking",
        coverage=dict(
            states=S("feasible"), transitions=S("decisions"), traces_validated_against_impl=S("validated"),
            samples=samples or [dict(note="no sample")], obligations_discharged=S("obligations"), queries=S("queries"),
            solver_seconds=round(S("solver_s"), 3), solver_unknowns=S("unknowns"), cases=len(jobs), per_harness=per,
            functions_encoded={k: n for k, n in sorted(ent.items())}, bounds=getattr(mod, "BOUNDS", ""),
            outside=getattr(mod, "OUTSIDE", ""),
            encoding_mismatches=sum(len(r.get("mismatches", [])) for r in results),
            reachability="every harness case reached %s obligations on feasible paths; a case without any is an error" % "its",
            explanation="states = feasible symbolic paths through the real functions, each standing for all inputs that follow "
            "it; transitions = solver-decided forks; traces = path models replayed on the real code with equal results",
            known_findings=sorted(kf), errors=err[:20],
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
            "machine floats are treated as real numbers; every counterexample is replayed in floating point on the real code",
        ],
        violations=len(viol), wall_s=round(time.time() - t0, 2),
    )  # fmt: skip
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for e in err[:12]:
        print("ERROR %s: %s" % (a.prop, e))
    print(
        "%s %s: %s; %d cases, %d paths, %d obligations, %d queries, solver %.1fs, wall %.1fs"
        % (a.prop, a.tier, {0: "holds within bounds", 1: "VIOLATED", 2: "inconclusive"}[rc], len(jobs), S("feasible"), S("obligations"), S("queries"), S("solver_s"), time.time() - t0)
    )
    return rc


if __name__ == "__main__":
    sys.exit(main())
