#!/usr/bin/env python3-vt
"""check.py PROPERTY: decides one property of /repo's current working tree.

1. contracts/: verification conditions are generated from the current source and discharged (z3, cvc5).
2. search/: a bounded run of the real code, used (a) to find a failing input when an obligation fails, (b) as the labelled
   bounded stand-in where the generator cannot follow the current code, (c) as a cross-check of the generator.
Exit 0 / 1 (VIOLATION line); anything else is an error of the check."""
import importlib, json, multiprocessing as mp, os, subprocess, sys, time, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
os.environ["PYTHONHASHSEED"] = "0"

def run_task(t, deadline, conn):
    try:
        sys.setrecursionlimit(20000)
        t.go(deadline)
        conn.send(dict(name=t.name, functions=t.functions, unsupported=t.unsupported, paths=t.paths, completed=t.completed, live=t.live,
                       wall=t.wall, contracts=sorted(t.contracts_used), inlined=sorted(t.inlined), lemma=getattr(t, "lemma", False),
                       obls=[dict(name=o.name, status=o.status, backend=o.backend, time=o.time, line=o.line, detail=o.detail, path=o.path) for o in t.obls]))
    except BaseException:
        conn.send(dict(name=t.name, functions=t.functions, error=traceback.format_exc(), obls=[], unsupported=None, completed=0, live=False, wall=0, contracts=[], inlined=[], paths=0))
    conn.close()

def run_tasks(tasks, workers, budget, per_task, stop=lambda r: False):
    """each task in its own process"""
    end = time.time() + budget
    pending, running, results = list(tasks), [], {}
    ctx = mp.get_context("fork")
    while pending or running:
        while pending and len(running) < workers and time.time() < end:
            t = pending.pop(0)
            t.beat = ctx.Value("d", time.time(), lock=False)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=run_task, args=(t, min(end, time.time() + per_task), b), daemon=True)
            p.start(); b.close()
            t.beat.value = time.time()
            running.append((t, p, a, time.time() + per_task + 60))
        if stop(results):
            for (t, p, a, lim) in running: p.kill()
            for t in pending + [x[0] for x in running]: results[t.name] = dict(name=t.name, functions=t.functions, unsupported="not finished: an obligation had failed and a failing input was found", obls=[], completed=0, live=True, wall=0, contracts=[], inlined=[], paths=0)
            break
        if time.time() >= end and pending:
            for t in pending: results[t.name] = dict(name=t.name, functions=t.functions, unsupported="time budget of the check exhausted", obls=[], completed=0, live=True, wall=0, contracts=[], inlined=[], paths=0)
            pending = []
        again = []
        for (t, p, a, lim) in running:
            got = None
            if a.poll(0.02):
                try: got = a.recv()
                except EOFError: got = dict(name=t.name, functions=t.functions, error="task process died", obls=[], unsupported=None, completed=0, live=False, wall=0, contracts=[], inlined=[], paths=0)
            elif time.time() - t.beat.value > 40 * t.stretch + 20 and not hasattr(t, "hung"):
                # one solver call that does not come back (z3 does not always honour its time limit): once more from the start
                t.hung = True
                p.kill(); p.join(timeout=5)
                pending.insert(0, t)
                continue
            elif time.time() > lim:
                got = dict(name=t.name, functions=t.functions, unsupported="time budget of the task exhausted", obls=[], completed=0, live=True, wall=per_task, contracts=[], inlined=[], paths=0)
            if got is None: again.append((t, p, a, lim))
            else:
                results[t.name] = got
                p.kill() if p.is_alive() and "unsupported" in got and got["unsupported"] else None
                p.join(timeout=5)
        running = again
    return [results[t.name] for t in tasks]

def start_search(prop, seed, budget, workers):
    return subprocess.Popen([PY, os.path.join(HERE, "search", "runner.py"), "search", prop.lower(), "--seed", str(seed), "--budget", str(budget), "--workers", str(workers)],
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, VERIF_REPO=REPO))
def end_search(p, limit):
    try: out, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill(); out, err = p.communicate()
        return {"errors": ["search did not end"], "fail": None, "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "rule": ""}
    try: return json.loads(out.strip().splitlines()[-1])
    except Exception: return {"errors": [err[-3000:] or out[-500:] or "no output"], "fail": None, "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "rule": ""}

def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN-FINDING: property=%s " % prop): out.append(l)
    return out

def main():
    from contracts.registry import PROPS, COMMON
    prop = sys.argv[1].upper()
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick"); tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    quick = tier == "quick"
    sbudget = cfg.get("search", 20) * (1 if quick else 10)
    sp = start_search(prop, seed, sbudget, 3)
    results, gen_error = [], None
    try:
        from pyvc.src import Repo
        repo = Repo(REPO)
    except SyntaxError as e:
        print("ERROR: the source does not parse: %s" % e); sys.exit(2)
    tasks, mismatch = [], []
    from pyvc.vals import Unsupported
    for m in cfg["modules"]:
        mod = importlib.import_module("contracts." + m)
        try: tasks += mod.tasks_for(repo, prop) if getattr(getattr(mod, "tasks_for", None), "__module__", None) == mod.__name__ else mod.tasks(repo)
        except Unsupported as e: mismatch.append("%s: %s" % (m, e))
        except Exception as e: traceback.print_exc(); mismatch.append("%s: generator error: %r" % (m, e))
    budget = cfg.get("proof_budget", 300 if quick else 900)
    sres = {}
    def found(results=None):
        """a named obligation has failed and the bounded search has ended with a failing input"""
        if results is not None and not any(o["status"] != "discharged" for r in results.values() for o in r["obls"]): return False
        if "s" not in sres and sp.poll() is not None: sres["s"] = end_search(sp, 30)
        return sres.get("s", {}).get("fail") is not None
    if tasks:
        results = run_tasks(tasks, 6, budget, cfg.get("per_task", 150 if quick else 400), found)
        # an obligation the loaded machine did not discharge in time gets a second chance, alone
        bad = {r["name"] for r in results if not r.get("error") and not r["unsupported"] and any(o["status"] != "discharged" for o in r["obls"])}
        slow = {r["name"] for r in results if r["unsupported"] and "time budget" in r["unsupported"]}
        if (bad or slow) and not found():
            for t in tasks:
                if t.name in bad | slow: t.stretch = 3
            left = max(90, min(180, budget + 60 - (time.time() - t0)))
            again = run_tasks([t for t in tasks if t.name in bad | slow], 4, left, left - 20, found)
            by = {r["name"]: r for r in again}
            results = [by.get(r["name"], r) if (r["name"] in slow or r["name"] in by and sum(o["status"] != "discharged" for o in by[r["name"]]["obls"]) <= sum(o["status"] != "discharged" for o in r["obls"])) else r for r in results]
    t_proof = round(time.time() - t0, 1)
    s = sres.get("s") or end_search(sp, sbudget + 90)
    t_search = round(time.time() - t0, 1)
    errors = []
    for r in results:
        if r.get("error"):
            # the generator itself failed on this code: undecided, like any other code it cannot follow
            r["unsupported"] = "generator error: " + r["error"].strip().splitlines()[-1]
            r["trace"] = r.pop("error")
            print(r["trace"], file=sys.stderr)
    vac = [r["name"] for r in results if not r.get("error") and not r["unsupported"] and (not r["live"] or not r["obls"])]
    failed = [(r["name"], o) for r in results for o in r["obls"] if o["status"] != "discharged"]
    unsup = mismatch + ["%s: %s" % (r["name"], r["unsupported"]) for r in results if r["unsupported"]] + ["%s: no path reaches its end, nothing is proved" % v for v in vac]
    wide = None
    if s["fail"] is None and (failed or unsup or vac):
        wide = end_search(start_search(prop, seed + 1000, cfg.get("wide", 100) * (1 if quick else 3), 8), 600)
        s = dict(s, evaluations=s["evaluations"] + wide["evaluations"], distinct_nontrivial=s["distinct_nontrivial"] + wide["distinct_nontrivial"], fail=wide["fail"], errors=s["errors"] + wide["errors"])
    nobl = sum(len(r["obls"]) for r in results)
    ndis = sum(o["status"] == "discharged" for r in results for o in r["obls"])
    backends = {}
    for r in results:
        for o in r["obls"]:
            b = backends.setdefault(o["backend"], [0, 0.0]); b[0] += 1; b[1] += o["time"]
    proved = bool(results) and not failed and not unsup and not errors and not vac
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg["level"], wall_s=round(time.time() - t0, 2), violations=0,
        assumptions=COMMON + list(cfg.get("assumes", [])),
        coverage=dict(
            obligations=nobl, discharged=ndis,
            checker_cmd="python3-vt check.py %s  (VC generation from %s/src/satisfy, z3 %s, cvc5)" % (prop, REPO, _z3v()),
            trusted_base=COMMON + list(cfg.get("assumes", [])),
            explanation=("every obligation generated from the current source was discharged" if proved else
                         "NOT proved on this tree: " + "; ".join((["%d obligations failed" % len(failed)] if failed else []) + unsup + ["vacuous: " + v for v in vac])[:2000]) + ".  The bounded search is a labelled cross-check and is not part of the proof.",
            functions_under_contract=sorted({f for r in results if not r.get("lemma") for f in r["functions"]}),
            functions_followed_inline=sorted({f for r in results for f in r["inlined"]}),
            contracts_used=sorted({c for r in results for c in r["contracts"]}),
            lemmas=[r["name"] for r in results if r.get("lemma")],
            tasks=[dict(task=r["name"], obligations=len(r["obls"]), discharged=sum(o["status"] == "discharged" for o in r["obls"]), paths=r["completed"], seconds=round(r["wall"], 2), reachable=r["live"], undecided=r["unsupported"]) for r in results],
            back_ends={b: dict(obligations=n, solver_seconds=round(x, 2)) for b, (n, x) in sorted(backends.items())},
            bounded_parts=list(cfg.get("bounded", [])) + (["(this run) " + u for u in unsup]),
            phases=dict(proof_done=t_proof, retried=sorted(bad | slow) if tasks else [], search_done=t_search, widened=wide is not None),
            evaluations=s["evaluations"], distinct_nontrivial=s["distinct_nontrivial"], rule=s.get("rule", ""), samples=s.get("samples", [])[:3],
            enumeration_complete=s.get("enumeration_complete", False)))
    EVD = os.environ.get("VERIF_EVID", os.path.join(HERE, "evidence"))
    os.makedirs(EVD, exist_ok=True)
    code = 0
    rep = os.path.join(EVD, "%s.replay.json" % prop)
    lines = []
    if s["fail"] is not None:
        json.dump(dict(property=prop, case=s["fail"]["case"], message=s["fail"]["message"], replay_cmd="%s search/runner.py replay %s" % (PY, rep),
                       failed_obligations=[dict(task=n, **o) for n, o in failed][:10]), open(rep, "w"), indent=1)
        r = subprocess.run([PY, os.path.join(HERE, "search", "runner.py"), "replay", rep], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=REPO))
        if r.returncode == 1:
            lines.append("VIOLATION property=%s replay=%s" % (prop, rep)); code = 1
            print(s["fail"]["message"][:1500])
        else:
            ev["coverage"]["unconfirmed_failure"] = s["fail"]
    if code == 0 and failed:
        json.dump(dict(property=prop, failed_obligations=[dict(task=n, **o) for n, o in failed][:10], note="no failing input was found by the bounded search"), open(rep, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rep)); code = 1
    if code == 0:
        if errors or not results and not unsup:
            print("ERROR of the check: " + ("\n".join(errors) or "no obligations")); code = 3
        elif s["errors"]:
            print("ERROR of the bounded search: " + s["errors"][0][-1500:]); code = 3
    ev["violations"] = 1 if code == 1 else 0
    ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(EVD, "%s.json" % prop), "w"), indent=1)
    for l in known_findings(prop):
        if code == 0: print(l)
    if code == 1:
        for n, o in failed[:5]: print("failed obligation: %s / %s (line %s)" % (n, o["name"], o["line"]))
    for u in [u for u in unsup if code == 0 or "not finished" not in u][:20]: print("undecided by the verifier on this tree, bounded stand-in used: %s" % u)
    print("%s: %d/%d obligations discharged in %d tasks, %d bounded evaluations, %.1f s" % (prop, ndis, nobl, len(results), s["evaluations"], time.time() - t0))
    for l in lines: print(l)
    sys.exit(code)

def _z3v():
    import z3
    return z3.get_version_string()

if __name__ == "__main__":
    try: main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); sys.exit(4)
