#!/usr/bin/env python3
"""check.py <property id> [--repo DIR]

Decides one property from the current source of /repo: compares every
definition of that property (spec/*.py) with the value graph of its target and
applies the property's whole-package rules (sa/rules.py).

exit 0  the property holds on everything analysed (KNOWN-FINDING lines name
        recorded defects)
exit 1  VIOLATION property=<id> replay=<path>
exit 2  no answer: a public operation the property is about is gone, or the
        source does not parse
"""
import json
import multiprocessing
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa.index import Index, AnalysisError            # noqa: E402
from sa.contracts import SpecSet, Checker, OutOfTime, timelimit            # noqa: E402
from sa.ir import show                               # noqa: E402
from sa import rules                                 # noqa: E402


def known_findings(path):
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                head, _, text = line[len("finding:"):].partition("::")
                kv = dict(x.split("=", 1) for x in head.split() if "=" in x)
                out[(kv["property"], kv["key"])] = text.strip()
    return out


def case_text(path):
    return " and ".join(("" if v else "not ") + show(x, 6)[:200] for x, v in path) or "always"


_W = {}


def judge(i):
    """one definition, in a worker process: plain data only"""
    c = _W["contracts"][i]
    t1 = time.time()
    out = {"i": i, "stats": {}, "detail": "", "loc": "", "short": "", "diffs": []}
    try:
        r = _W["checker"].check(c)
    except Exception as e:                       # the analysis gave up on this one
        if _W["verbose"]:
            traceback.print_exc()
        out.update(status="gaveup", detail=f"analysis gave up ({type(e).__name__}: {e})"[:300])
        return out
    out.update(status=r.status, detail=r.detail, stats=r.stats, t=time.time() - t1)
    if r.func is not None:
        out.update(loc=r.func.loc(), short=r.func.short)
    if r.status == "violation":
        out["diffs"] = [(case_text(p), " / ".join(str(x) for x in w), show(a, 9)[:1200], show(b, 9)[:1200]) for p, a, b, w in r.diffs[:4]]
    return out


def judge_all(checker, contracts, verbose):
    _W.update(checker=checker, contracts=contracts, verbose=verbose)
    n = min(8, os.cpu_count() or 1, len(contracts))
    if n < 2:
        return [judge(i) for i in range(len(contracts))]
    # the slow ones first: definitions of whole runs
    order = sorted(range(len(contracts)), key=lambda i: (".run" not in contracts[i].target, i))
    with multiprocessing.get_context("fork").Pool(n) as pool:
        res = list(pool.imap_unordered(judge, order, chunksize=1))
    return sorted(res, key=lambda r: r["i"])


def main(argv):
    t0 = time.time()
    prop = argv[1]
    repo = argv[argv.index("--repo") + 1] if "--repo" in argv else "/repo"
    verbose = "-v" in argv
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    try:
        ix = Index(repo)
    except (AnalysisError, SyntaxError, OSError) as e:
        print(f"ERROR property={prop} {e}")
        return 2
    specs = SpecSet(ix, os.path.join(HERE, "spec"))
    known = known_findings(os.path.join(HERE, "known_findings.txt"))
    checker = Checker(ix, specs)
    mine = [c for c in specs.contracts if c.prop == prop]
    myrules = rules.RULES.get(prop, [])
    if not mine and not myrules:
        print(f"ERROR property={prop} is not a checked property")
        return 2
    viol, knownhits, errors, und, held, samples = [], [], [], [], 0, []
    counts = {"definitions": 0, "cases_compared": 0, "value_graph_nodes": 0, "call_sites_resolved": 0}
    funcs, files = set(), set()
    groups = {}
    for c in mine:
        groups.setdefault(c.id, []).append(c)
    todo = [([c for c in cs if "known" not in c.opts][0], [c for c in cs if "known" in c.opts]) for cs in groups.values()]
    for r in judge_all(checker, [c for c, _ in todo], verbose):
        c, alts = todo[r["i"]]
        counts["definitions"] += 1
        st = r["stats"]
        counts["cases_compared"] += st.get("cases", 0)
        counts["value_graph_nodes"] += st.get("terms", 0)
        counts["call_sites_resolved"] += st.get("calls", 0)
        funcs |= set(st.get("functions", ()))
        files |= set(st.get("files", ()))
        if verbose:
            print(f"  {r['status']:10s} {c.id} {r['detail']} {r.get('t', 0):.2f}s")
        if r["status"] == "holds":
            held += 1
            if len(samples) < 5:
                samples.append({"definition": c.id, "spec": f"spec/{os.path.basename(c.specmod.rel)}:{c.fn.node.lineno}",
                                "code": r["loc"], "gate_atoms": st.get("atoms", 0), "cases": st.get("cases", 0)})
        elif r["status"] == "error":
            nm = c.target.rpartition(".")[2]
            (und if nm.startswith("_") else errors).append(f"{c.id}: {r['detail']}")
        elif r["status"] in ("undecided", "gaveup"):
            und.append(f"{c.id}: {r['detail']}")
        else:
            hit = None
            for a in alts:
                if (prop, a.opts["known"]) in known and checker.check(a).status == "holds":
                    hit = a
            if hit is not None:
                knownhits.append((hit.opts["known"], known[(prop, hit.opts["known"])]))
            else:
                viol.append((r, c))
    rulefind = []
    rcounts = {}
    for name, text, fn in myrules:
        res = rules.RuleResult(name, text)
        try:
            with timelimit(180):
                fn(ix, res)
        except AnalysisError as e:
            errors.append(f"{name}: {e}")
        except OutOfTime:
            und.append(f"{name}: out of time")
        except Exception as e:
            if verbose:
                raise
            und.append(f"{name}: analysis gave up ({type(e).__name__}: {e})"[:300])
        rcounts[name] = res.counts
        und += [f"{name}: {x}" for x in res.undecided]
        funcs |= res.functions
        files |= res.files
        for f in res.findings:
            k = (prop, f"{name}|{f.key}".replace(" ", "_"))
            if k in known:
                knownhits.append((k[1], known[k]))
            else:
                rulefind.append((name, text, f, k[1]))
    if verbose:
        for u in und:
            print("  undecided", u)
    n = len(viol) + len(rulefind)
    for k, text in knownhits:
        print(f"KNOWN-FINDING: property={prop} {k}: {text}")
    replay = os.path.join(evdir, f"{prop}.report.txt")
    if os.path.exists(replay):
        os.unlink(replay)
    if n:
        with open(replay, "w") as f:
            for r, c in viol:
                f.write(f"{r['loc']}: {r['short']} [{c.view}] differs from its definition spec/{os.path.basename(c.specmod.rel)}:{c.fn.node.lineno} ({c.fn.node.name})\n")
                for p, w, a, b in r["diffs"]:
                    f.write(f"    in the case: {p}\n      at: {w}\n      code:       {a}\n      definition: {b}\n")
            for name, text, x, k in rulefind:
                f.write(f"{x.where}: rule {name} ({text})\n    {x.message}\n    key: {k}\n")
        sys.stdout.write(open(replay).read())
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "wall_s": round(time.time() - t0, 3), "violations": n,
          "coverage": {
              "explanation": "Static: the functions below were translated from the current source into gated value graphs and compared, case by "
                             "case, with the property's definitions; whole-package rules were applied to every site they range over. "
                             "No code of the package was run. Undecided definitions raise no alarm and are listed.",
              "definitions_held": held, **counts, "rules": rcounts, "functions_analysed": len(funcs), "functions": sorted(x.replace("resistics.", "", 1) for x in funcs)[:60],
              "files": sorted(files), "undecided": und, "samples": samples or [{"rule": a, "text": b} for a, b, _ in myrules]},
          "assumptions": ["annotated parameter types are respected by callers", "third-party functions behave as documented",
                          "floating-point reassociation is not considered a change of behaviour"]}
    with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for e in errors:
        print(f"ERROR property={prop} {e}")
    if n:
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if errors:
        return 2
    print(f"OK property={prop}: {held}/{counts['definitions']} definitions hold, {len(und)} undecided, {len(myrules)} rule(s), {time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
