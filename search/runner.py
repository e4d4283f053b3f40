#!/opt/venv/bin/python
"""Bounded search / replay driver.  Runs the real code of /repo/src (never a copy).

  runner.py search PROP --seed N --budget SECONDS [--workers W]   -> prints one JSON line
  runner.py replay FILE                                            -> exit 1 if the recorded case still fails
"""
import argparse, importlib, json, multiprocessing as mp, os, random, signal, sys, time, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
os.environ["FORCE_COLOR"] = "1"
os.environ.pop("NO_COLOR", None)
import logging
logging.disable(logging.CRITICAL)
from common import Hang, Undefined

CASE_TIMEOUT = 20

def _alarm(sig, frm):
    raise Hang()

def run_case(mod, case):
    """None when fine, otherwise a message."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        return mod.run(case)
    except Hang:
        return "no answer within %d s" % CASE_TIMEOUT
    except Undefined:
        return None
    except RecursionError:
        return "RecursionError"
    except Exception as e:
        return "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-4))
    finally:
        signal.alarm(0)

def nontrivial(mod, case):
    f = getattr(mod, "nontrivial", None)
    return True if f is None else f(case)

def worker(prop, seed, idx, workers, deadline, q, stop):
    try:
        sys.setrecursionlimit(5000)
        mod = importlib.import_module(prop.lower())
        rng = random.Random(seed * 7919 + idx)
        random.seed(seed * 104729 + idx)
        n = nt = 0
        seen = set()
        samples = []
        exhausted = False
        def one(case):
            nonlocal n, nt
            n += 1
            if nontrivial(mod, case):
                key = hash(json.dumps(case, sort_keys=True))
                if key not in seen:
                    seen.add(key); nt += 1
            if len(samples) < 2:
                samples.append(case)
            msg = run_case(mod, case)
            if msg is not None:
                q.put(("fail", case, msg)); return True
            return False
        enum = getattr(mod, "enumerate_cases", None)
        if enum is not None:
            exhausted = True
            for i, case in enumerate(enum()):
                if i % workers != idx:
                    continue
                if time.time() > deadline or stop.is_set():
                    exhausted = False
                    break
                if one(case):
                    exhausted = False
                    break
        gen = getattr(mod, "generate", None)
        while gen is not None and time.time() < deadline and not stop.is_set():
            if one(gen(rng)):
                break
        q.put(("done", idx, n, nt, samples, exhausted))
    except BaseException:
        q.put(("error", traceback.format_exc()))

def shrink(mod, case, msg, deadline):
    sh = getattr(mod, "shrink", None)
    if sh is None:
        return case, msg
    progress = True
    while progress and time.time() < deadline:
        progress = False
        for c in sh(case):
            if time.time() > deadline:
                break
            m = run_case(mod, c)
            if m is not None and "no answer" not in m:
                case, msg, progress = c, m, True
                break
    return case, msg

def search(prop, seed, budget, workers):
    t0 = time.time()
    deadline = t0 + budget
    ctx = mp.get_context("fork")
    q = ctx.Queue(); stop = ctx.Event()
    ps = [ctx.Process(target=worker, args=(prop, seed, i, workers, deadline, q, stop), daemon=True) for i in range(workers)]
    for p in ps: p.start()
    res = {"property": prop, "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "fail": None, "errors": []}
    res["enumeration_complete"] = True
    done = 0
    hard = deadline + CASE_TIMEOUT + 30
    fails = []
    while done < len(ps) and time.time() < hard:
        try:
            m = q.get(timeout=1)
        except Exception:
            if all(not p.is_alive() for p in ps) and q.empty():
                break
            continue
        if m[0] == "fail":
            stop.set(); fails.append((m[1], m[2]))
        elif m[0] == "error":
            done += 1; res["errors"].append(m[1]); res["enumeration_complete"] = False
        else:
            done += 1
            res["evaluations"] += m[2]; res["distinct_nontrivial"] += m[3]
            if len(res["samples"]) < 3: res["samples"] += m[4][:1]
            res["enumeration_complete"] &= m[5]
    for p in ps:
        if p.is_alive(): p.kill()
    if fails:
        mod = importlib.import_module(prop.lower())
        fails.sort(key=lambda f: len(json.dumps(f[0])))
        case, msg = fails[0]
        case, msg = shrink(mod, case, msg, time.time() + 20)
        res["fail"] = {"case": case, "message": msg}
    mod = importlib.import_module(prop.lower())
    res["rule"] = (mod.__doc__ or "").strip()
    res["seconds"] = round(time.time() - t0, 2)
    return res

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what"); ap.add_argument("arg")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--workers", type=int, default=8)
    a = ap.parse_args()
    import satisfy
    assert os.path.realpath(satisfy.__file__).startswith(os.path.realpath(REPO) + "/src/"), satisfy.__file__
    if a.what == "search":
        print(json.dumps(search(a.arg, a.seed, a.budget, a.workers)))
    else:
        d = json.load(open(a.arg))
        if "case" not in d:
            print("no failing input recorded; see the failed obligation in the file"); sys.exit(1)
        mod = importlib.import_module(d["property"].lower())
        msg = run_case(mod, d["case"])
        print("case:", json.dumps(d["case"])); print("result:", "holds" if msg is None else "VIOLATED: " + msg)
        sys.exit(0 if msg is None else 1)

if __name__ == "__main__":
    main()
