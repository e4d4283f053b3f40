"""development driver: dev.py MODULE [--repo R] [--prop P] [-j N] [substring]: run the tasks of one contract module"""
import sys, os, argparse, importlib, traceback, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc.src import Repo
import multiprocessing as mp
ap = argparse.ArgumentParser(); ap.add_argument("mod"); ap.add_argument("--repo", default="/repo"); ap.add_argument("--prop"); ap.add_argument("-j", type=int, default=7)
ap.add_argument("-t", type=float, default=120); ap.add_argument("-v", action="store_true"); ap.add_argument("sub", nargs="?", default="")
a = ap.parse_args()
m = importlib.import_module("contracts." + a.mod)
repo = Repo(a.repo)
tasks = m.tasks_for(repo, a.prop) if a.prop else m.tasks(repo)
tasks = [t for t in tasks if a.sub in t.name]
def work(i):
    t = tasks[i]
    try: t.go(time.time() + a.t)
    except Exception as e:
        if a.v: traceback.print_exc()
        f = traceback.extract_tb(e.__traceback__)
        return "%-50s CRASH %r at %s" % (t.name, e, " <- ".join("%s:%d" % (os.path.basename(x.filename), x.lineno) for x in reversed(f[-6:])))
    bad = [o for o in t.obls if o.status != "discharged"]
    out = "%-50s paths %d done %d obls %d failed %d %.1fs %s%s" % (t.name, t.paths, t.completed, len(t.obls), len(bad), t.wall, t.unsupported or "", "" if t.live else " NOT LIVE")
    for o in bad: out += "\n    FAIL %s line %s %s %s" % (o.name, o.line, o.backend, (o.detail or "")[:(3000 if a.v else 200)] + (" path " + o.path if a.v else ""))
    return out
import signal
p = mp.get_context("fork").Pool(a.j, maxtasksperchild=1)
for r in p.imap_unordered(work, range(len(tasks))): print(r, flush=True)
os.setpgrp() if False else None
for c in mp.active_children(): os.kill(c.pid, signal.SIGKILL)
os._exit(0)
