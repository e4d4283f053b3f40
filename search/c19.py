"""Call sequences (start, stop, abort, elapsed, stats, running, count) over a scripted non-decreasing clock, against a list of intervals; all sequences of length <= 5 enumerated. Non-trivial: at least one completed interval."""
import itertools
OPS = ["start", "stop", "abort", "stop3"]
def enumerate_cases():
    for n in range(1, 7):
        for ops in itertools.product(OPS[:3], repeat=n): yield {"ops": [[o, i + 1] for i, o in enumerate(ops)]}
def generate(rng):
    return {"ops": [[rng.choice(OPS), rng.choice([0, 0, 1, 2, 0.5])] for _ in range(rng.randint(1, 30))]}
def nontrivial(case): return any(o[0] == "stop" for o in case["ops"])
def shrink(case):
    for i in range(len(case["ops"])): yield {"ops": case["ops"][:i] + case["ops"][i+1:]}
def run(case):
    import time
    from satisfy.utils import Timer
    real = time.time
    now = [64.0]
    time.time = lambda: now[0]
    try:
        t = Timer(); total = 0.0; cur = None; n = 0
        for op, dt in case["ops"]:
            now[0] += dt
            # the interval spans the clock between calls
            before = (t.running(), t.count(), t.elapsed(), t.stats())
            err = None; ret = None
            try:
                if op == "start": t.start()
                elif op == "stop": ret = t.stop()
                elif op == "stop3": ret = t.stop(count=3)
                else: t.abort()
            except RuntimeError as e: err = e
            if op == "start":
                if (cur is not None) != (err is not None): return "start: error %r" % err
                if cur is None: cur = now[0]
            elif op in ("stop", "stop3"):
                if (cur is None) != (err is not None): return "stop: error %r" % err
                if cur is not None:
                    if ret != now[0] - cur: return "stop returns %r" % ret
                    total += now[0] - cur; cur = None; n += 3 if op == "stop3" else 1
            else:
                if err is not None: return "abort: error %r" % err
                if cur is not None: total += now[0] - cur; cur = None
            if err is not None and (t.running(), t.count(), t.elapsed(), t.stats()) != before: return "%s raised but changed the timer" % op
            if t.running() != (cur is not None): return "running() is %r" % t.running()
            if t.count() != n or t.stats().count != n: return "count %r after %d stops" % (t.count(), n)
            for d in (0, 0.25):
                now[0] += d
                want = total + ((now[0] - cur) if cur is not None else 0)
                if abs(t.elapsed() - want) > 1e-9: return "elapsed %r, expected %r" % (t.elapsed(), want)
                if abs(t.stats().elapsed - total) > 1e-9: return "stats elapsed %r, expected %r" % (t.stats().elapsed, total)
    finally:
        time.time = real
    return None
