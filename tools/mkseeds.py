"""Writes seeded/<id>/ from the table below and confirms each change in a scratch copy of /repo."""
import difflib, json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/satisfy/"
PRE = "import sys, itertools\nfrom satisfy.model import Model\nfrom satisfy.solver import Solver, VarSelectionPolicy\nfrom satisfy.expression import *\nfrom satisfy import expression as X, constraint as C, objective as O\ndef vals(sols, *vs): return sorted(tuple(s[v] for v in vs) for s in sols)\n"
SEEDS = [
 ("c01-zero-power", "C01", S + "expression.py", [("        if self.value == 1:\n            return self\n        elif isinstance(other, Const):\n            return Const(self._value ** other.value)",
   "        if self.value in (0, 1):\n            return self\n        elif isinstance(other, Const):\n            return Const(self._value ** other.value)")],
  "a constant base 0 and an exponent that evaluates to 0", "0 ** x is simplified to 0 although 0 ** 0 is 1",
  "x = Variable('x')\nassert (0 ** x).evaluate({'x': 0}) == 1\nassert (0 ** (x - x)).evaluate({'x': 3}) == 1\n"),
 ("c01-merge-const", "C01", S + "expression.py", [("            if expression.const != neutral_element:\n                const = accumulate_class.op(const, [expression.const])\n                if const",
   "            if expression.const != neutral_element:\n                const = expression.const\n                if const")],
  "a sum of two already flattened sums which both carry a constant", "merging two accumulations keeps only the second constant",
  "a, b, c, d = (Variable(n) for n in 'abcd')\ns = (a + b + c + 5) + (b + c + d + 7)\nassert s.evaluate(dict(a=1, b=10, c=100, d=1000)) == 1 + 10 + 100 + 5 + 10 + 100 + 1000 + 7, s\n"),
 ("c02-cached-function", "C02", S + "expression.py", [("    def as_function(self):\n        try:\n            return self.compile_py_function()\n        except:",
   "    def as_function(self):\n        try:\n            if getattr(self, '_function', None) is None:\n                self._function = self.compile_py_function()\n            return self._function\n        except:")],
  "an expression compiled twice with a parameter changed in between", "the compiled function is cached, so a second compilation has stale parameters",
  "p = Parameter('p', 1); x = Variable('x'); e = x + p\nassert e.as_function()(x=1) == 2\np.value = 5\nassert e.evaluate({'x': 1}) == 6\nassert e.as_function()(x=1) == 6\n"),
 ("c02-bitand", "C02", S + "expression.py", [("    __symbol__ = '&'\n    __py_symbol__ = 'and'", "    __symbol__ = '&'\n    __py_symbol__ = '&'")],
  "a conjunction of operands that are non-zero but share no bits", "the compiled conjunction is bitwise",
  "x, y = Variable('x'), Variable('y')\ne = x & y\nassert e.as_function()(x=1, y=2) == e.evaluate(dict(x=1, y=2))\n"),
 ("c03-dup-vars", "C03", S + "expression.py", [("                if var not in vlist:\n                    vlist.append(var)", "                if not vlist or var != vlist[-1]:\n                    vlist.append(var)")],
  "an expression with a repeated variable whose occurrences are separated by another one", "a variable is reported twice (and the compiled lambda has a duplicate argument)",
  "x, y = Variable('x'), Variable('y')\nassert sorted((x * y - x).vars()) == ['x', 'y']\n"),
 ("c03-free-zero", "C03", S + "expression.py", [("        for var in self._vars:\n            if var not in substitution:\n                yield var", "        for var in self._vars:\n            if not substitution.get(var):\n                yield var")],
  "a partial assignment that binds a variable to 0", "a variable bound to 0 is reported as free",
  "x, y = Variable('x'), Variable('y')\nassert list((x + y).free_vars({'x': 0})) == ['y']\n"),
 ("c04-alldiff-extra", "C04", S + "constraint.py", [("        return len(set(substitution[var_name] for var_name in self._var_names)) == len(self._var_names)",
   "        values = set(substitution.values()) if len(substitution) > len(self._var_names) else set(substitution[var_name] for var_name in self._var_names)\n        return len(values) >= len(self._var_names)")],
  "an assignment with further variables bound to other values", "values of unrelated variables count towards the difference",
  "c = C.AllDifferentConstraint(['x', 'y'])\nassert c.unsatisfied(dict(x=1, y=1, z=2))\nassert not c.unsatisfied(dict(x=1, y=3, z=1))\nassert not c.unsatisfied(dict(x=1, z=1))\n"),
 ("c04-negative", "C04", S + "constraint.py", [("        return not self.evaluate(substitution)", "        return self.evaluate(substitution) <= 0")],
  "an expression constraint that evaluates to a negative number", "negative values count as false",
  "c = C.ExpressionConstraint(Variable('x') - 5)\nassert not c.unsatisfied({'x': 2})\nassert c.unsatisfied({'x': 5})\nassert not c.unsatisfied({'x': 9})\n"),
 ("c05-append-early", "C05", S + "model.py", [("        for var_name in var_names:\n            if var_name not in self._variables:\n                raise ValueError(\"constraint {} depends on undefined variable {}\".format(constraint, var_name))\n        self._constraints.append(constraint)",
   "        self._constraints.append(constraint)\n        for var_name in var_names:\n            if var_name not in self._variables:\n                raise ValueError(\"constraint {} depends on undefined variable {}\".format(constraint, var_name))")],
  "a rejected add_constraint followed by a look at the constraints", "a constraint on undefined variables is rejected but stays in the model",
  "m = Model(); x = m.add_int_variable([0, 1], name='x')\ntry: m.add_constraint(x + Variable('zz') > 0); raise SystemExit('accepted')\nexcept ValueError: pass\nassert list(m.constraints()) == []\n"),
 ("c05-true-resets", "C05", S + "model.py", [("            value = constraint.evaluate({})\n            if value:", "            value = constraint.evaluate({})\n            self.__solvable = bool(value)\n            if value:")],
  "a false constant constraint followed by a true one", "a later true constraint makes an unsolvable model solvable again",
  "m = Model(); x = m.add_int_variable([0, 1], name='x')\nm.add_constraint(False); m.add_constraint(True)\nassert not m.solvable()\nassert list(Solver().solve(m)) == []\n"),
 ("c06-unary-last", "C06", S + "solver.py", [("                        for value in pure_variables[var_name].domain:\n                            if constraint.evaluate", "                        for value in model.get_var_domain(var_name):\n                            if constraint.evaluate")],
  "two constraints on the same single variable", "only the last single-variable constraint of a variable is enforced",
  "m = Model(); x = m.add_int_variable(range(6), name='x')\nm.add_constraint(x > 1); m.add_constraint(x < 4)\nassert vals(Solver().solve(m), 'x') == [(2,), (3,)]\n"),
 ("c06-ad-last", "C06", S + "solver.py", [("                        var_ad_constraints[var_name].update(v for v in c_vars if v != var_name)", "                        var_ad_constraints[var_name] = set(v for v in c_vars if v != var_name)")],
  "a variable that occurs in two all-different constraints", "only the last all-different constraint of a variable is enforced",
  "m = Model(); x, y, z = (m.add_int_variable(range(2), name=n) for n in 'xyz')\nm.add_all_different_constraint([x, y]); m.add_all_different_constraint([x, z])\nassert vals(Solver().solve(m), 'x', 'y', 'z') == [(0, 1, 1), (1, 0, 0)]\n"),
 ("c07-shared-domain", "C07", S + "solver.py", [("                domain = []\n                v_ad_constraints = var_ad_constraints.get(var_name, ())\n                for value in variables[var_name].domain:",
   "                v_ad_constraints = var_ad_constraints.get(var_name, ())\n                free = not v_ad_constraints and not var_constraints[var_name] and isinstance(variables[var_name].domain, list)\n                domain = variables[var_name].domain if free else []\n                for value in () if free else variables[var_name].domain:")],
  "an unconstrained variable whose domain is a list, and a second visit of it", "the search consumes the domain of an unconstrained variable",
  "m = Model(); x = m.add_int_variable([0, 1], name='x'); y = m.add_int_variable([5, 6, 7], name='y')\nfor p in VarSelectionPolicy:\n    assert len(list(Solver(var_selection_policy=p).solve(m))) == 6, p\n"),
 ("c07-domain-gap", "C07", S + "solver.py", [("                            if constraint.evaluate({var_name: value}):\n                                domain.append(value)\n", "                            if constraint.evaluate({var_name: value}):\n                                domain.append(value)\n                            elif domain:\n                                break\n")],
  "a constraint about one variable that rejects a value in the middle of its domain", "values after the first rejected one are lost",
  "m = Model(); x = m.add_int_variable(range(5), name='x'); m.add_constraint(x != 2)\nout = sorted(s['x'] for s in Solver().solve(m))\nassert out == [0, 1, 3, 4], out\n"),
 ("c08-limit-none", "C08", S + "solver.py", [("        limit = args.get('limit', self._limit)\n        var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)\n        additional_constraints = tuple", "        limit = args.get('limit') or self._limit\n        var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)\n        additional_constraints = tuple")],
  "limit=None given to the call of a solver that has a limit", "a call cannot lift the limit of the solver",
  "m = Model(); m.add_int_variable(range(5), name='x')\ns = Solver(limit=2)\nassert len(list(s.solve(m, limit=None))) == 5 and s.get_stats().interrupt is None\n"),
 ("c08-stale-interrupt", "C08", S + "solver.py", [("    def _reset(self):\n        self._timer = Timer()\n        self._interrupt = None", "    def _reset(self):\n        self._timer = Timer()\n        if self._interrupt != \"limit\":\n            self._interrupt = None")],
  "a search cut by a limit followed by an exhaustive one on the same solver", "the report of the first search sticks",
  "m = Model(); m.add_int_variable(range(5), name='x')\ns = Solver()\nassert len(list(s.solve(m, limit=2))) == 2 and s.get_stats().interrupt == 'limit'\nassert len(list(s.solve(m))) == 5\nassert s.get_stats().interrupt is None\n"),
 ("c09-not-strict", "C09", S + "objective.py", [("        super().__init__(model, expression, op=operator.gt)", "        super().__init__(model, expression, op=operator.ge)")],
  "a model with several solutions of equal value", "maximizing yields solutions that are not better",
  "m = Model(); x, y = (m.add_int_variable(range(3), name=n) for n in 'xy')\nout = [o.solution['x'] for o in Solver().optimize(m, O.Maximize(x))]\nassert all(a < b for a, b in zip(out, out[1:])), out\n"),
 ("c09-stale-bound", "C09", S + "objective.py", [("        self._not_set.value = 0\n        self._bound.value = value\n        if self.is_compiled():\n            self.compile()\n", "        self._not_set.value = 0\n        if self.is_compiled():\n            self.compile()\n        self._bound.value = value\n")],
  "a run with compiled constraints", "the compiled constraint has the bound before last",
  "m = Model(); x, y = (m.add_int_variable(range(4), name=n) for n in 'xy')\nout = [o.solution['x'] for o in Solver(compile_constraints=True).optimize(m, O.Maximize(x))]\nassert all(a < b for a, b in zip(out, out[1:])), out\n"),
 ("c10-timeout-optimal", "C10", S + "solver.py", [("        if solution is not None and self._interrupt is None:", "        if solution is not None and self._interrupt != \"limit\":")],
  "an optimization cut by a timeout after a first solution", "a solution found by a timed out search is reported optimal",
  "import time\nclass Slow(C.ExpressionConstraint):\n    n = 0\n    def unsatisfied(self, s):\n        Slow.n += 1\n        if Slow.n > 3: time.sleep(0.2)\n        return super().unsatisfied(s)\nm = Model(); x, y = (m.add_int_variable(range(3), name=n) for n in 'xy')\nm.add_constraint(Slow(x + y >= 0))\ns = Solver(timeout=0.1, var_selection_policy=VarSelectionPolicy.ORDERED)\nr = s.optimal_solution(m, O.Maximize(x + y))\nassert s.get_stats().interrupt == 'timeout', s.get_stats()\nassert not r.is_optimal\n"),
 ("c10-caller-constraints", "C10", S + "solver.py", [("tuple(args.get('additional_constraints', ())) + tuple(objective_constraints)", "tuple(objective_constraints) or tuple(args.get('additional_constraints', ()))")],
  "an optimization with additional constraints of the caller", "the caller's additional constraints are dropped, so what is reported optimal does not satisfy them",
  "m = Model(); x = m.add_int_variable(range(4), name='x')\nr = Solver().optimal_solution(m, O.Maximize(x), additional_constraints=[C.ExpressionConstraint(x < 2)])\nassert r.is_optimal and r.solution == {'x': 1}, r\n"),
 ("c11-block", "C11", S + "sudoku.py", [("                block_index = block_offset + (col_index // 3)", "                block_index = block_offset + (col_index // 3) if row_index < 6 else row_index // 3 * 3 + col_index % 3")],
  "a schema whose completions are decided by the lower three blocks", "the lower blocks are not 3x3 squares",
  "from satisfy.sudoku import SudokuSolver\nrow = [1, 2, 3, 4, 5, 6, 7, 8, 9]\ng = [row[k:] + row[:k] for k in (0, 3, 6, 1, 4, 7, 2, 5, 8)]\nh = [list(r) for r in g]\nfor r in (6, 7, 8):\n    for c in range(9):\n        if (r + c) % 2: h[r][c] = 0\nout = list(SudokuSolver(h, limit=50))\nassert tuple(map(tuple, g)) in out, len(out)\nfor s in out:\n    for b in range(9):\n        assert len({s[b // 3 * 3 + i][b % 3 * 3 + j] for i in range(3) for j in range(3)}) == 9\n"),
 ("c12-diag", "C12", S + "tool/queens.py", [("domain=range(-board_size, board_size + 1)", "domain=range(-board_size + 1, board_size - 1)")],
  "a board on which a queen must stand in a corner of one diagonal direction", "placements with a queen at the last row of column 0 are lost",
  "from satisfy.tool.queens import QueensSolver\nfor n in (1, 4, 5):\n    got = {tuple(r.index(1) for r in b) for b in QueensSolver(n)}\n    want = {p for p in itertools.permutations(range(n)) if all(abs(p[i] - p[j]) != j - i for i in range(n) for j in range(i + 1, n))}\n    assert got == want, (n, len(got), len(want))\n"),
 ("c13-selfloop", "C13", S + "graph_labeling.py", [("            model.add_constraint(variables[node0] != variables[node1])", "            if node0 is not node1:\n                model.add_constraint(variables[node0] != variables[node1])")],
  "a graph with a self-loop", "self-loops are ignored",
  "import networkx as nx\nfrom satisfy.graph_labeling import GraphLabelingSolver\ng = nx.Graph(); g.add_edge(0, 1); g.add_edge(1, 1)\nassert list(GraphLabelingSolver(g, ['r', 'b'])) == []\n"),
 ("c14-equal-capacity", "C14", S + "knapsack.py", [("            constraint = model.add_constraint(sum(var * weight[idx] for var, weight in zip(variables, weights)) <= capacity)",
   "            total = sum(weight[idx] for weight in weights)\n            if total <= capacity:\n                continue\n            constraint = model.add_constraint(sum(var * weight[idx] for var, weight in zip(variables, weights)) <= capacity)")],
  "negative weights: all items together fit although some of them alone do not", "a capacity that the full selection respects is not enforced",
  "from satisfy.knapsack import KnapsackOptimizer\nr = KnapsackOptimizer([5, -1], [3], [[7], [-6]])()\nassert r.solution == (1, 1) and r.value == 4, r\n"),
 ("c15-adjacent", "C15", S + "nonogram.py", [("                        constraint = var > prev_var + var_infos[prev_var.name].size\n                        model.add_constraint(constraint)\n                    cur_vars.append(var)\n\n        # add row<>col",
   "                        constraint = var >= prev_var + var_infos[prev_var.name].size\n                        model.add_constraint(constraint)\n                    cur_vars.append(var)\n\n        # add row<>col")],
  "a column with two runs that can be pushed together", "two runs of a column may touch",
  "from satisfy.nonogram import NonogramSolver\nn = {'rows': [[], [1], [1], []], 'columns': [[1, 1]]}\nassert list(NonogramSolver(n)) == []\n"),
 ("c16-last-run", "C16", S + "nonogram.py", [("                if count:\n                    col.append(count)\n                count = 0\n        if count:\n            col.append(count)", "                if count:\n                    col.append(count)\n                    count = 0\n        if count > 1 or not col and count:\n            col.append(count)")],
  "a column whose last cell is a run of length one after another run", "a final run of length one is lost",
  "from satisfy.nonogram import pixmap_to_nonogram\nassert pixmap_to_nonogram([[1], [0], [1]]) == {'rows': [[1], [], [1]], 'columns': [[1, 1]]}\nassert pixmap_to_nonogram([[1, 1]]) == {'rows': [[2]], 'columns': [[1], [1]]}\n"),
 ("c17-mixed-word", "C17", S + "cryptarithm.py", [("            if avoid_leading_zeros and not number[0].isdigit():\n                non_zero_letters.add(number[0])", "            if avoid_leading_zeros and number.isalpha():\n                non_zero_letters.add(number[0])")],
  "a word that mixes letters and digits and starts with a letter", "such a word may get a leading zero",
  "from satisfy.cryptarithm import CryptarithmSolver\nout = [s['A'] for s in CryptarithmSolver('A1 + 2 == 2 + A1')]\nassert sorted(out) == list(range(1, 10)), out\n"),
 ("c18-diagonal", "C18", S + "tool/ascii_map_coloring.py", [("                for roffset, coffset in OFFSETS:\n                    g0_neighbors.add", "                for roffset, coffset in OFFSETS[1:]:\n                    g0_neighbors.add")],
  "two regions that touch only through one diagonal direction", "such regions may get the same color",
  "import os; os.environ['FORCE_COLOR'] = '1'\nfrom satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver\nfor mm in (['    a ', '     a', '   b a', '    a '], ['.b', 'a.'], ['b.', '.a'], ['.a.', 'b.c', '.d.'], ['..a', 'b..', '.a.'], ['  aa', ' bb ', 'a   ', ' cc ']):\n    for s in AsciiMapColoringSolver(mm, colors=('red', 'green'), limit=9):\n        cell = {(r, c): s[r][c] for r in range(len(mm)) for c in range(len(mm[r])) if mm[r][c] not in ' .'}\n        for (r, c), v in cell.items():\n            for (a, b), w in cell.items():\n                if max(abs(r - a), abs(c - b)) == 1 and mm[r][c] != mm[a][b]: assert v.split('m')[0] != w.split('m')[0], (mm, s)\n"),
 ("c19-abort-time", "C19", S + "utils.py", [("        if self.running():\n            self.stop(count=0)", "        if self.running():\n            self._t_start = None")],
  "an aborted interval", "the time of an aborted interval is not accounted for",
  "import time\nfrom satisfy.utils import Timer\nclock = [0.0]\ntime.time = lambda: clock[0]\nt = Timer(); t.start(); clock[0] = 2.0; t.abort()\nassert t.elapsed() == 2.0 and t.count() == 0\n"),
 ("c20-shared-solution", "C20", S + "solver.py", [("            substitution = substitution.copy()\n            domain = domains.get(var_name, None)\n            if domain is None:\n                domain = []\n                v_ad", "            if len(unbound_vars) > 0:\n                substitution = substitution.copy()\n            domain = domains.get(var_name, None)\n            if domain is None:\n                domain = []\n                v_ad")],
  "a caller that keeps or modifies a yielded solution", "yielded solutions share one dictionary with the search",
  "m = Model(); x, y = (m.add_int_variable(range(2), name=n) for n in 'xy')\nsols = list(Solver().solve(m))\nassert len({id(s) for s in sols}) == 4\nassert vals(sols, 'x', 'y') == [(0, 0), (0, 1), (1, 0), (1, 1)]\n"),
 ("c21-case", "C21", S + "expression.py", [("        return type(self) == type(other) and self._name == other.name", "        return type(self) == type(other) and self._name.lower() == other.name.lower()")],
  "two variables whose names differ only in case", "different variables are reported equal",
  "assert not Variable('a').equals(Variable('A'))\nassert Variable('a').equals(Variable('a'))\n"),
]
def main():
    only = sys.argv[1:]
    claimed = {c["property"] for c in json.load(open(os.path.join(H, "MANIFEST.json")))["checks"]}
    for i in os.listdir(os.path.join(H, "seeded")):
        m = os.path.join(H, "seeded", i, "meta.json")
        if not os.path.exists(m) or json.load(open(m))["property"] not in claimed: shutil.rmtree(os.path.join(H, "seeded", i))
    tmp = tempfile.mkdtemp(prefix="seeds.")
    base = os.path.join(tmp, "repo")
    try:
        for (i, prop, path, edits, needs, breaks, demo) in SEEDS:
            if only and i not in only or prop not in claimed: continue
            d = os.path.join(H, "seeded", i)
            os.makedirs(d, exist_ok=True)
            shutil.rmtree(base, ignore_errors=True)
            subprocess.run(["git", "clone", "-q", "/repo", base], check=True)
            p = os.path.join(base, path); t = open(p).read(); 
            for old, new in edits:
                assert t.count(old) == 1, (i, t.count(old)); t = t.replace(old, new)
            open(p, "w").write(t)
            open(os.path.join(d, "patch.diff"), "w").write(subprocess.run(["git", "-C", base, "diff"], capture_output=True, text=True).stdout)
            open(os.path.join(d, "demo.py"), "w").write(PRE + demo)
            open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            r1 = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=base, capture_output=True, text=True, timeout=300)
            subprocess.run(["git", "-C", base, "checkout", "-q", "--", "."], check=True)
            r0 = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=base, capture_output=True, text=True, timeout=300)
            subprocess.run(["git", "-C", base, "apply", os.path.join(d, "patch.diff")], check=True)
            tst = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=base, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=base + "/src", PYTHONDONTWRITEBYTECODE="1"))
            ok = r0.returncode == 0 and r1.returncode != 0 and tst.returncode == 0
            # changed lines must come from the original repository
            print(i, "OK" if ok else "BAD", "clean=%d patched=%d tests=%s" % (r0.returncode, r1.returncode, tst.stdout.strip().splitlines()[-1] if tst.stdout.strip() else tst.stderr[-200:]), "" if ok else r0.stderr[-300:] + r1.stderr[-300:], flush=True)
    finally:
        shutil.rmtree(tmp)
if __name__ == "__main__": main()
