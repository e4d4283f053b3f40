import os
"""Path exploration, symbolic heap, obligations and solving."""
import zlib, random, itertools, subprocess, tempfile, time, os
import z3
from .vals import *

# ------------------------------------------------------------ background symbols
SL = z3.Function("seq_len", I, I)               # immutable sequences
SE = z3.Function("seq_el", I, AI)
CLS = z3.Function("cls", I, I)                  # dynamic class of an object
CARD = z3.Function("card", AB, I)               # cardinality of a finite set
ISUM = z3.Function("isum", AI, I, I)            # sum of the first n entries
IPROD = z3.Function("iprod", AI, I, I)
FDIV = z3.Function("floordiv", I, I, I)
MOD = z3.Function("pymod", I, I, I)
POW = z3.Function("pypow", I, I, I)
SOME = z3.Function("some", I, I)
UNSOME = z3.Function("unsome", I, I)
MIXI = z3.Function("mix_int", I, I)
MIXV = z3.Function("mix_val", I, I)
_tup = {}
def TUPF(i):
    if i not in _tup: _tup[i] = z3.Function("tup_%d" % i, I, I)
    return _tup[i]
ELS = z3.Function("elements", AI, I, AB)        # set of the first n entries
ELW = z3.Function("element_pos", AI, I, I, I)
COLLN = z3.Function("coll_len", I, I)
COLLE = z3.Function("coll_el", I, AI)

def forall(vs, body, pats=None):
    if z3.is_true(body): return body
    kw = {}
    if pats:
        ps = [p if not isinstance(p, (list, tuple)) else z3.MultiPattern(*p) for p in pats]
        kw["patterns"] = ps
    return z3.ForAll(vs, body, **kw)

def distinct_arr(a, n, x="dx"):
    i, j = z3.Ints("%s_i %s_j" % (x, x))
    return forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), a[i] != a[j]), [(a[i], a[j])])

_names = itertools.count()
def base_axioms():
    a, b = z3.Consts("a b", AI); n, x = z3.Ints("n x")
    S = z3.Const("S", AB)
    ax = [
        forall([x], z3.And(SOME(x) != 0, UNSOME(SOME(x)) == x), [SOME(x)]),
        forall([x], z3.And(MIXI(x) < 0, MIXV(MIXI(x)) == x), [MIXI(x)]),
        forall([x], SL(x) >= 0, [SL(x)]),
        forall([x], COLLN(x) >= 0, [COLLN(x)]),
        forall([S], CARD(S) >= 0, [CARD(S)]),
        # definition of ELS: x is among the first n entries of a
        forall([a, n, x], z3.Implies(ELS(a, n)[x], z3.And(0 <= ELW(a, n, x), ELW(a, n, x) < n, a[ELW(a, n, x)] == x)), [ELS(a, n)[x]]),
        forall([a, n, x], z3.Implies(z3.And(0 <= x, x < n), ELS(a, n)[a[x]]), [(ELS(a, n), a[x])]),
    ]
    return ax
def fold_axioms():
    a, b = z3.Consts("a b", AI); n = z3.Int("n")
    d1 = z3.Function("fold_diff", AI, AI, I, I)
    d = d1(a, b, n)
    ax = []
    for F, unit in ((ISUM, 0), (IPROD, 1)):
        ax.append(forall([a], F(a, 0) == unit, [F(a, 0)]))
        # prefix lemma (proved by induction in lemmas.py): equal prefixes have equal folds
        ax.append(forall([a, b, n], z3.Or(F(a, n) == F(b, n), z3.And(0 <= d, d < n, a[d] != b[d])), [(F(a, n), F(b, n))]))
    return ax

class PathEnd(Exception): pass
class TaskFailed(Exception): """enough obligations failed"""

class Obl:
    __slots__ = ("name", "task", "status", "backend", "time", "line", "detail", "path")
    def __init__(self, **k):
        for s in self.__slots__: setattr(self, s, k.get(s))

class Outcome:
    def __init__(self, kind, val, branches, facts, heap, envs, writes, alloc):
        self.kind, self.val, self.branches, self.facts = kind, val, branches, facts
        self.heap, self.envs, self.writes, self.alloc = heap, envs, writes, alloc
    @property
    def cond(self):
        return z3.And(*self.branches) if self.branches else z3.BoolVal(True)

HEAP_SORTS = {"L.len": z3.ArraySort(I, I), "L.el": z3.ArraySort(I, AI), "D.dom": z3.ArraySort(I, AB),
              "D.val": z3.ArraySort(I, AI), "S.dom": z3.ArraySort(I, AB)}
def heap_sort(m): return HEAP_SORTS[m] if m in HEAP_SORTS else z3.ArraySort(I, I)

def sel(a, i):
    """select, resolved through the stores whose index is syntactically decided"""
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        k = a.arg(1)
        if k.eq(i): return a.arg(2)
        d = z3.simplify(k == i)
        if z3.is_true(d): return a.arg(2)
        if not z3.is_false(d): break
        a = a.arg(0)
    return z3.Select(a, i)

FEAS_MS, PROVE_MS, RETRY_MS = 400, 6000, 20000

class Cx:
    """One execution path of one verification task."""
    def __init__(self, task, decisions):
        self.task = task
        self.levels = [dict(dec=list(decisions), pos=0, alts=[])]
        self.trace = []
        self.pc = []                  # (kind, formula)
        self.heap = {}
        self.heap0 = {}
        self.nfresh = 0
        self.fresh_log = None
        self.alloc = z3.Int("alloc0")
        self.alloc_off = 0
        self.alloc_base = self.alloc
        self.writes = None
        self.envs = []
        self.solver = z3.Solver()
        self.solver.set("smt.mbqi", False)
        self.solver.set("smt.random_seed", 1)
        self.solver.set("timeout", FEAS_MS)
        for a in task.axioms: self.solver.add(a)
        self.solver.add(self.alloc >= 1)
        self.mute = 0
        self.ghost = {}
        self.tags = {}                # formula id -> (formula, name) of the facts that have a name
        self.relevance = None         # (name of a goal, name of a fact) -> False when the fact is not needed for the goal
        self.line = 0
        self.steps = 0

    # ---- names
    def fresh(self, base, sort=I):
        self.nfresh += 1
        c = z3.Const("%s!%d" % (base, self.nfresh), sort)
        if self.fresh_log is not None: self.fresh_log.append(c)
        return c

    # ---- path condition
    def assume(self, f, kind="fact", tag=None):
        if z3.is_true(f): return
        if tag is not None: self.tags[f.get_id()] = (f, tag)
        self.pc.append((kind, f))
        self.solver.add(f)
    def reset_to(self, n):
        """drop every fact after the first n"""
        del self.pc[n:]
        self.solver = z3.Solver()
        self.solver.set("smt.mbqi", False); self.solver.set("smt.random_seed", 1); self.solver.set("timeout", FEAS_MS)
        for a in self.task.axioms: self.solver.add(a)
        self.solver.add(z3.Int("alloc0") >= 1)
        for k, f in self.pc: self.solver.add(f)
    def feasible(self, f=None):
        key = (self.task.types_now, tuple(self.trace), len(self.pc), None if f is None else f.sexpr() if len(self.pc) < 4 else f.hash())
        memo = self.task.feas
        if key in memo: return memo[key]
        t = self.task.tick()
        if self.task.feas_ms: self.solver.set("timeout", self.task.feas_ms)
        r = self.solver.check() if f is None else self.solver.check(f)
        self.task.feas_time += time.time() - t
        memo[key] = r != z3.unsat
        return memo[key]
    def reached(self, key):
        """guard against vacuous proofs: some path that gets here must not be contradictory"""
        t = self.task
        t.seen.add(key)
        if key not in t.reach and not self.mute and self.feasible(): t.reach.add(key)
    def branch(self, cond):
        """decide a condition on this path; the other side is explored later"""
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        return self.choose([cond, z3.Not(cond)]) == 0
    def choose(self, conds, kind="branch"):
        lv = self.levels[-1]
        if lv["pos"] < len(lv["dec"]):
            k = lv["dec"][lv["pos"]]
        else:
            feas = []
            for i, c in enumerate(conds):
                if i == len(conds) - 1 and not feas and len(conds) > 1 and kind == "branch":
                    feas.append(i); break      # the path itself is assumed feasible
                if self.feasible(c): feas.append(i)
            if not feas: raise PathEnd()
            k = feas[0]
            for o in feas[1:]:
                lv["alts"].append(lv["dec"] + [o])
            lv["dec"].append(k)
        lv["pos"] += 1
        self.trace.append(k)
        self.task.branches += 1
        if self.task.branches > self.task.max_branches: raise Unsupported("path budget exhausted")
        self.assume(conds[k], kind)
        return k
    def fork(self, n):
        """nondeterministic choice without a condition"""
        c = self.fresh("choice")
        return self.choose([c == k for k in range(n)])

    # ---- nested exploration
    def snapshot(self):
        return dict(pc=len(self.pc), heap=dict(self.heap), alloc=self.alloc, off=self.alloc_off, base=self.alloc_base,
                    envs=[(e, dict(e.vars)) for e in self.envs], writes=None if self.writes is None else list(self.writes),
                    trace=len(self.trace), ghost=dict(self.ghost), line=self.line)
    def restore(self, s):
        del self.pc[s["pc"]:]
        self.heap = dict(s["heap"]); self.alloc, self.alloc_off, self.alloc_base = s["alloc"], s["off"], s["base"]
        self.envs = [e for e, _ in s["envs"]]
        for e, d in s["envs"]:
            e.vars.clear(); e.vars.update(d)
        self.writes = None if s["writes"] is None else list(s["writes"])
        del self.trace[s["trace"]:]
        self.ghost = dict(s["ghost"]); self.line = s["line"]
    def explore(self, thunk, keep_raise=True):
        from .interp import Signal
        outs, work = [], [[]]
        base_trace = list(self.trace)
        nf = self.nfresh
        s = self.snapshot()
        while work:
            dec = work.pop(0)
            self.restore(s)
            self.trace.append(("n", len(outs)))
            self.solver.push()
            self.levels.append(dict(dec=dec, pos=0, alts=[]))
            try:
                o = None
                try:
                    val = thunk(); kind = "ok"
                except PyRaise as e:
                    kind, val = "raise", e
                except Signal as e:
                    kind, val = e.kind, e
                br = [f for k, f in self.pc[s["pc"]:] if k in ("branch", "fork")]
                fa = [f for k, f in self.pc[s["pc"]:] if k == "fact"]
                o = Outcome(kind, val, br, fa, dict(self.heap), [(e, dict(e.vars)) for e in self.envs],
                            None if self.writes is None else self.writes[len(s["writes"] or []):], self.alloc)
                outs.append(o)
            except PathEnd:
                pass
            finally:
                lv = self.levels.pop()
                self.solver.pop()
            work += lv["alts"]
            if len(outs) > 200: raise Unsupported("too many paths in a nested exploration")
        self.restore(s)
        return outs

    # ---- obligations
    def check(self, goal, name, line=None, keep=True):
        if self.mute: return
        if self.task.share is not None and zlib.crc32(name.encode()) % self.task.share[1] != self.task.share[0]:
            # another task over the same paths decides the obligations of this name
            if keep: self.assume(goal)
            return
        if self.task.dry:
            # only the types of containers are being found out: nothing is decided
            if keep: self.assume(goal)
            return
        goal_s = z3.simplify(goal)
        key = (tuple(self.trace), name, len(self.pc), goal_s.hash())
        if key in self.task.done: 
            if self.task.done[key] and keep: self.assume(goal)
            return
        st, be, dt, det = self.prove(goal_s, name)
        self.task.done[key] = True
        self.task.obls.append(Obl(name=name, task=self.task.name, status=st, backend=be, time=dt,
                                  line=self.line if line is None else line, detail=det, path=str(self.trace[:40])))
        if st != "discharged":
            if os.environ.get("VERIF_DUMP"):
                s = z3.Solver()
                for a in self.task.axioms: s.add(a)
                s.add(self.alloc_base >= 1, *[f for _, f in self.pc if self.relevance is None or f.get_id() not in self.tags or self.relevance(name, self.tags[f.get_id()][1])]); s.add(z3.Not(goal_s))
                open(os.path.join(os.environ["VERIF_DUMP"], "%s-%d.smt2" % (self.task.name.replace("/", "_").replace(" ", "_"), len(self.task.obls))), "w").write("; %s\n" % name + s.to_smt2())
            self.task.nfailed += 1
            self.task.fast_fail = True           # one obligation is enough: do not spend the full effort on the others
            if self.task.nfailed >= 3: raise TaskFailed()
            if self.task.stop_on_fail: raise PathEnd()
        if keep: self.assume(goal)
    def prove(self, goal, name=""):
        t = time.time()
        if z3.is_true(goal): return "discharged", "simplifier", 0.0, ""
        self.task.tick()
        if self.relevance is not None:
            # first from the facts that matter (hypotheses are only left out: sound): the ground ones and those of the same name, then those about the same matter
            stem = name.split(": ")[-1]
            def few(): return [f for _, f in self.pc if not has_quant(f) or f.get_id() in self.tags and self.tags[f.get_id()][1].split(": ")[-1] == stem]
            def near(): return [f for _, f in self.pc if f.get_id() not in self.tags or self.relevance(name, self.tags[f.get_id()][1])]
            stages = [("few", few, [], 500), ("axioms", few, self.task.axioms, 1000), ("near", near, self.task.axioms, 5000)]
            best = self.task.stage.get(name)
            if best is not None: stages.sort(key=lambda s: s[0] != best)
            for nm, fs, ax, ms in stages if best != "full" else []:
                s = z3.SimpleSolver()
                s.set("timeout", ms); s.set("smt.mbqi", False); s.set("smt.random_seed", 1)
                s.add(z3.Int("alloc0") >= 1); s.add(*ax); s.add(*fs()); s.add(z3.Not(goal))
                if s.check() == z3.unsat:
                    self.task.stage[name] = nm
                    return "discharged", "z3", time.time() - t, ""
                self.task.tick()
        self.solver.push()
        self.solver.set("timeout", PROVE_MS * self.task.stretch)
        self.solver.add(z3.Not(goal))
        r = self.solver.check()
        reason = str(r) if r != z3.unknown else "unknown (%s)" % self.solver.reason_unknown()
        self.solver.set("timeout", FEAS_MS)
        self.solver.pop()
        if r == z3.unsat:
            self.task.stage[name] = "full"
            return "discharged", "z3", time.time() - t, ""
        self.task.stage.pop(name, None)
        if self.task.fast_fail or self.task.untyped and not self.task.final: return "failed", "z3", time.time() - t, reason
        # second attempts: fresh z3 solvers, then cvc5
        fs = [f for _, f in self.pc]
        full = fs
        if self.relevance is not None: fs = [f for f in fs if f.get_id() not in self.tags or self.relevance(name, self.tags[f.get_id()][1])]
        if self.subset_retry(goal, fs): return "discharged", "z3 (subset)", time.time() - t, ""
        fs = full
        for cfg in (dict(mbqi=False, seed=5, tac=True), dict(mbqi=False, seed=7), dict(mbqi=True, seed=3)):
            s = z3.Then("simplify", "propagate-values", "simplify", "solve-eqs", "simplify", "propagate-values", "smt").solver() if cfg.get("tac") else z3.Solver()
            s.set("timeout", (10000 if cfg.get('tac') else RETRY_MS) * self.task.stretch if not cfg["mbqi"] else 8000)
            s.set("smt.mbqi", cfg["mbqi"]); s.set("smt.random_seed", cfg["seed"])
            for a in self.task.axioms: s.add(a)
            s.add(self.alloc_base >= 1)
            for f in fs: s.add(f)
            s.add(z3.Not(goal))
            self.task.tick()
            r = s.check()
            if r == z3.unsat: return "discharged", "z3 (tactic)" if cfg.get("tac") else "z3 (fresh)", time.time() - t, ""
            if cfg.get("tac"): continue
            if r == z3.sat:
                m = s.model()
                txt = "; ".join("%s=%s" % (d.name(), m[d]) for d in m.decls() if d.arity() == 0 and d.range() in (I, B))[:1500]
                return "failed", "z3", time.time() - t, "counter-model: " + txt
        self.task.tick()
        ok = cvc5_check(s.to_smt2())
        if ok: return "discharged", "cvc5", time.time() - t, ""
        return "failed", "z3+cvc5", time.time() - t, reason

    def subset_retry(self, goal, fs):
        """fewer hypotheses: the instantiation of the quantified ones can drown the solver.  Sound, as hypotheses only go away."""
        ground, quant = [], []
        for f in list(self.task.axioms) + fs:
            (quant if has_quant(f) else ground).append(f)
        if len(quant) < 12: return False
        rnd = random.Random(zlib.crc32(goal.sexpr().encode()))
        for k in range(self.task.subsets):
            p = (0.85, 0.7, 0.55, 0.4)[k % 4]
            s = z3.SimpleSolver()
            s.set("timeout", 1500); s.set("smt.mbqi", False); s.set("smt.random_seed", k)
            s.add(*ground); s.add(self.alloc_base >= 1)
            s.add(*[q for q in quant if rnd.random() < p])
            s.add(z3.Not(goal))
            self.task.tick()
            if s.check() == z3.unsat: return True
        return False
    # ---- heap
    def hp(self, m):
        if m not in self.heap:
            # after a cut nothing is known about a map the path has not looked at yet
            c = z3.Const(("C0:" if self.ghost.get("was_cut") else "H0:") + m, heap_sort(m))
            self.heap[m] = c
            self.heap0.setdefault(m, c)
        return self.heap[m]
    def rd(self, m, r): return sel(self.hp(m), r)
    def wr(self, m, r, v, key=None, op="set", val=None):
        if v.sort() == I: v = z3.simplify(v)
        self.heap[m] = z3.Store(self.hp(m), r, v)
        if self.writes is not None: self.writes.append((m, r, key, op, val))
    def new_ref(self):
        r = self.alloc
        n = self.fresh("al") if False else None
        self.alloc = z3.simplify(self.alloc + 1)
        return r
    def known(self, r):
        """a reference read from the heap is allocated"""
        self.assume(z3.And(r >= 1, r < self.alloc))

_hq = {}
def has_quant(f):
    k = f.get_id()
    if k in _hq and _hq[k][0].eq(f): return _hq[k][1]
    r = z3.is_quantifier(f) or any(has_quant(c) for c in f.children())
    _hq[k] = (f, r)
    return r

def cvc5_check(smt2, ms=10000):
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + smt2)
            p = f.name
        out = subprocess.run(["cvc5", "--tlimit=%d" % ms, p], capture_output=True, text=True, timeout=ms / 1000 + 10).stdout
        return out.strip().startswith("unsat")
    except Exception:
        return False
    finally:
        try: os.unlink(p)
        except Exception: pass

class Task:
    """A function (or function case) to verify: run(cx) drives one path."""
    def __init__(self, name, run, axioms=(), fast_fail=False, max_branches=6000, functions=()):
        self.name, self.run = name, run
        self.axioms = base_axioms() + list(axioms)
        self.obls, self.done, self.feas = [], {}, {}
        self.feas_time = 0.0
        self.branches = 0
        self.max_branches = max_branches
        self.stop_on_fail = True
        self.fast_fail = fast_fail
        self.paths = 0
        self.completed = 0
        self.live = False
        self.share = None
        self.seen, self.reach = set(), set()
        self.stretch = 1
        self.subsets = 16
        self.feas_ms = None
        self.types_now = ""
        self.stage = {}
        self.dry = False              # set: first find out the types of the containers, then decide the obligations
        self.unsupported = None
        self.contracts_used = set()
        self.inlined = set()
        self.site_types = {}
        self.untyped, self.final, self.beat = set(), False, None
        self.functions = list(functions)
    def tick(self):
        """sign of life for the process that watches this one"""
        t = time.time()
        if self.beat is not None: self.beat.value = t
        return t
    def go(self, deadline=None):
        t0 = time.time()
        ff = self.fast_fail
        for attempt in range(9):
            self.needtype = False
            self.untyped = set()
            work = [[]]
            before = self.types_now = repr(sorted((str(k), repr(v)) for k, v in self.site_types.items()))
            self.obls, self.done, self.paths, self.completed, self.live = [], {}, 0, 0, False
            self.seen, self.reach = set(), set()
            self.nfailed, self.fast_fail = 0, ff
            while work:
                if deadline and time.time() > deadline:
                    self.unsupported = "time budget of the task exhausted"; break
                dec = work.pop()
                cx = Cx(self, dec)
                self.paths += 1
                try:
                    self.run(cx)
                    self.completed += 1
                    self.tick()
                    if not self.live: self.live = cx.solver.check() != z3.unsat
                except PathEnd:
                    pass
                except TaskFailed:
                    self.live = True; self.seen = set(); work = []; break
                except NeedType:
                    self.needtype = True
                    if self.dry: work = []; break
                except Unsupported as e:
                    self.unsupported = "%s (line %s)" % (e, cx.line)
                    break
                except RecursionError:
                    self.unsupported = "recursion"; break
                work += cx.levels[0]["alts"]
            after = repr(sorted((str(k), repr(v)) for k, v in self.site_types.items()))
            if not self.unsupported and self.untyped & set(self.site_types): self.needtype = True
            elif not self.unsupported and not self.needtype and self.untyped and not self.final and self.nfailed:
                self.final = True; continue
            if self.dry and not self.needtype and not self.unsupported:
                self.dry, self.final = False, True; continue
            if self.unsupported or not self.needtype: break
            if before == after:
                self.unsupported = "element type never determined"; break
        if self.seen - self.reach: self.live = False
        self.wall = time.time() - t0
        return self
