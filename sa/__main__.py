"""python3 -m sa PROPERTY [--tier quick|thorough] [--case NAME]: decide one property from the source."""
from __future__ import annotations

import argparse
import ast
import json
import multiprocessing
import os
import queue
import sys
import time

from . import explore, source
from .registry import PROPS

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def driver(name):
    with open(os.path.join(HERE, "drivers", name + ".py"), encoding="utf-8") as f:
        text = f.read()
    d = explore.DriverMod(name, text)
    cfg = {}
    for n in d.tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "CONFIG":
            cfg = ast.literal_eval(n.value)
    cases = [n.name for n in d.tree.body if isinstance(n, ast.FunctionDef) and n.name.startswith("case_")]
    return d, cfg, cases


_prog = None
SLICE = 2.0


def _job(job):
    index, (kind, name, case, kw), root, paths = job
    if kind == "rule":
        from . import astrules

        r = astrules.run(name, _prog, kw)
        r.rest = []
        return index, r
    d, _, _ = driver(name)
    return index, explore.explore(_prog, d, case, explore.Config(**dict(kw, max_paths=paths)), root, SLICE)


def run_jobs(jobs, workers):
    """explore every entry point in slices shared between workers; results in the order of the jobs"""
    configs = [explore.Config(**j[3]) for j in jobs]
    results = [None] * len(jobs)
    waiting = [[] for _ in jobs]

    def done(index, part):
        r, cfg = results[index], configs[index]
        rest = part.rest
        if r is None:
            r = results[index] = part
        else:
            explore.merge(r, part, cfg.stop_after)
        waiting[index].extend(rest)
        if waiting[index] and (r.paths >= cfg.max_paths or r.wall >= cfg.seconds or len(r.violations) >= cfg.stop_after):
            waiting[index].clear()
            r.complete = False

    def job(i, root):
        return (i, jobs[i], root, max(1, configs[i].max_paths - (results[i].paths if results[i] else 0)))

    if workers <= 1:
        for i in range(len(jobs)):
            waiting[i].append(())
            while waiting[i]:
                done(*_job(job(i, waiting[i].pop())))
        return results
    ready = queue.Queue()
    running = [0] * len(jobs)
    with multiprocessing.get_context("fork").Pool(workers) as pool:
        for i in range(len(jobs)):
            waiting[i].append(())
        busy = 0
        while True:
            # the entry point with the fewest running slices first
            while busy < workers + 2:
                todo = [i for i in range(len(jobs)) if waiting[i]]
                if not todo:
                    break
                i = min(todo, key=lambda x: (running[x], x))
                running[i] += 1
                busy += 1
                pool.apply_async(_job, (job(i, waiting[i].pop()),), callback=ready.put, error_callback=ready.put)
            if not busy:
                break
            r = ready.get()
            busy -= 1
            if isinstance(r, BaseException):
                raise r
            running[r[0]] -= 1
            done(*r)
    return results


def add_common(prog):
    p = os.path.join(HERE, "drivers", "common.py")
    with open(p, encoding="utf-8") as f:
        prog.add("common", "driver:common", "driver", "", f.read())
    d = os.path.join(HERE, "drivers")
    for f in sorted(os.listdir(d)):
        if f.startswith("mod_") and f.endswith(".py"):
            with open(os.path.join(d, f), encoding="utf-8") as fh:
                prog.add(f[:-3], f"driver:{f[:-3]}", "driver", "", fh.read())


def known_findings():
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=<id> rule=<rule> function=<qualname> driver=<case> : text
                head, _, text = line[len("finding:"):].partition(" : ")
                d = dict(x.split("=", 1) for x in head.split())
                d["text"] = text
                out.append(d)
    return out


def main(argv=None):
    global _prog
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--case", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SA_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = a.property
    spec = PROPS[pid]
    t0 = time.time()
    _prog = source.load()
    add_common(_prog)
    jobs = []
    for dn in spec.get("drivers", ()):
        d, cfg, cases = driver(dn)
        base = dict(cfg.get("*", {}))
        for c in cases:
            if a.case and c != a.case:
                continue
            kw = dict(base)
            kw.update(cfg.get(c, {}))
            # the driver's budgets are those of the quick tier
            if tier == "thorough":
                kw["thorough"] = True
                kw["k"] = kw.get("k", 2) + 1
                kw["regex_total"] = kw.get("regex_total", 2) + 1
                kw["max_paths"] = kw.get("max_paths", 3000) * 10
                kw["seconds"] = max(kw.get("seconds", 60), 240)
            jobs.append(("driver", dn, c, kw))
    for r in spec.get("rules", ()):
        if a.case and r != a.case:
            continue
        jobs.append(("rule", r, None, {"property": pid, "tier": tier}))
    results = run_jobs(jobs, a.jobs)
    violations = [v for r in results for v in r.violations]
    known, fresh = [], []
    kf = [k for k in known_findings() if k.get("property") == pid]
    for v in violations:
        hit = None
        for k in kf:
            if k.get("rule") == v["rule"] and k.get("function", v["site"][2]) == v["site"][2] \
                    and k.get("driver", v.get("driver")) == v.get("driver"):
                hit = k
        (known if hit else fresh).append(v)
        if hit:
            v["known"] = hit["text"]
    paths = sum(r.paths for r in results)
    decided = sum(r.decided for r in results)
    oblig = sum(r.obligations for r in results)
    covered, callsites = set(), set()
    for r in results:
        covered |= r.covered
        callsites |= r.callsites
    undecided = {}
    for r in results:
        for u, c in r.unsupported.items():
            undecided[f"{r.name}: {u}"] = c
    incomplete = [r.name for r in results if not r.complete]
    empty = [r.name for r in results if not r.decided or not r.obligations]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    replay = os.path.join(ROOT, "evidence", f"{pid}.violations.json")
    report = []
    for v in fresh:
        report.append({
            "property": pid, "rule": v["rule"], "message": v["msg"],
            "construct": {"file": v["site"][0], "line": v["site"][1], "function": v["site"][2]},
            "call_path": [f"{f}:{ln} {q}" for f, ln, q in v.get("stack", [])],
            "entry_point": v.get("driver"),
            "branches": [f"{s[0]}:{s[1]} {s[2]} {w} -> {c}" for s, w, c in v.get("decisions", [])][-40:],
        })
    with open(replay, "w", encoding="utf-8") as f:
        json.dump(report, f, indent=1)
    rules = {}
    for r in results:
        for t, c in r.tags.items():
            if t.startswith("rule:"):
                rules[t[5:]] = rules.get(t[5:], 0) + c
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "explanation": "static analysis: abstract interpretation of the current source of /repo/rebulk with trace "
                           "partitioning from abstract entry points" + (" and syntax-tree/call-graph rules" if spec.get("rules") else "")
                           + "; the package is parsed, never imported or run. " + spec.get("what", ""),
            "entry_points": [r.name for r in results],
            "paths": paths,
            "paths_decided": decided,
            "obligations": oblig,
            "obligations_by_rule": rules,
            "functions_analysed": len(covered),
            "call_sites_analysed": len(callsites),
            "functions": sorted({f"{f}:{q}" for f, q, _ in covered}),
            "partitions_left_undecided": undecided,
            "entry_points_not_exhausted_within_budget": incomplete,
            "analyser_internal": [x[-600:] for r in results for x in r.internal][:5],
            "source_digest": _prog.digest,
            "files": sorted(m.path for m in _prog.modules.values() if m.package == "rebulk"),
            "known_findings": [v["known"] for v in known],
        },
        "violations": report,
    }
    for r in results:
        if r.tags.get("info"):
            ev["coverage"].setdefault("rule_instances", {})[r.name] = r.tags["info"]
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in sorted({v["known"] for v in known}):
        print(f"KNOWN-FINDING: property={pid} {k}")
    if a.v or not fresh:
        print(f"{pid}: {len(results)} entry points, {paths} paths ({decided} decided), {oblig} obligations, "
              f"{len(covered)} functions, {len(callsites)} call sites, {ev['wall_s']} s")
    if a.v:
        for r in sorted(results, key=lambda r: -r.wall):
            print(f"  {r.name}: paths {r.paths} decided {r.decided} infeasible {r.infeasible} bounded {r.bounded} "
                  f"oblig {r.obligations} complete {r.complete} {r.wall:.1f}s {({t: c for t, c in r.tags.items() if not t.startswith('rule:')} if a.case else '')}")
            for u, c in r.unsupported.items():
                print("     undecided", c, u)
            for x in r.internal:
                print(x)
    for v in fresh[:20]:
        f, ln, q = v["site"]
        print(f"  {v['rule']}: {v['msg']} [{f}:{ln} {q}] entry {v.get('driver')}")
    if fresh:
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    floor = spec.get("floor", 1)
    if not a.case and tier == "quick" and (oblig < floor or len(empty) * 2 > len(results)):
        print(f"ANALYSIS-BROKEN property={pid}: {oblig} obligations (floor {floor}), entry points without a decided "
              f"path: {empty}")
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
