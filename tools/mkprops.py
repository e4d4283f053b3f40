#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

S = "src/satisfy/"
prop("C01", "Expressions built with Python operators mean what Python arithmetic means",
 "Applying + - * / % ** unary - + abs, a comparison, & or | to expressions (or to one expression and a plain integer on either side) gives an expression (or, for two constants, possibly the plain integer) whose value under every assignment of integers is what plain Python gives for that operation on the operands' values, with / read as floor division and & | as 'and' 'or', whenever that operation is defined on them and yields an integer. Hence automatic simplification and flattening never change the value of a formula, and building one never fails.",
 ["inputs", "programs"], "all operator trees over integer constants, parameters and variables, all integer assignments",
 "The tests evaluate eight fixed expressions on fixed values (and, because of a fixture typo, only in compiled form); the property quantifies over all trees and all values, including every simplification special case.",
 [S+"expression.py"],
 [("operator overloads with simplification", S+"expression.py Expression.__add__ .. Const.__or__"),
  ("sum/product flattening", S+"expression.py _make_accumulate, Accumulation.__init__"),
  ("evaluate of every node class", S+"expression.py")],
 observe=["Expression.evaluate"])
prop("C02", "Compiled evaluation equals interpreted evaluation",
 "For every expression, the function obtained by compiling it returns, for every assignment of integers that binds its variables (plus any number of unrelated variables), the same value as interpreting the expression under that assignment, with parameters at the value they had when it was compiled. This holds for every node kind, sign of constant, nesting and ordinary variable name, including Python keywords and names of builtins.",
 ["inputs", "programs"], "all expressions over all node classes, all variable names a model accepts, all integer assignments",
 "The tests compile eight small expressions; precedence and name-capture errors in the generated source need specific nestings and names.",
 [S+"expression.py"],
 [("source generation", S+"expression.py py_expr of every class, Accumulation._as_str, Expression.py_source"),
  ("compilation and fallback", S+"expression.py compile_py_function, as_function")],
 observe=["Expression.evaluate", "Expression.compile_py_function", "Expression.as_function"])
prop("C03", "An expression reports exactly the variables its value can depend on",
 "The variables an expression reports are enough to evaluate it: evaluation succeeds whenever they are all bound (and the arithmetic is defined), and changing the value of any other variable never changes the result. The variables reported as free with respect to a partial assignment are exactly the reported variables the assignment leaves unbound; each is listed once, and parameters are never reported.",
 ["inputs", "programs"], "all expressions, all pairs of assignments",
 "No test calls vars or free_vars.",
 [S+"expression.py"],
 [("variable collection", S+"expression.py Collection.__init__, vars, free_vars of every class")],
 observe=["Expression.vars", "Expression.free_vars", "Expression.evaluate"])
prop("C04", "A constraint rejects exactly the complete assignments that break it",
 "A constraint is reported unsatisfied by an assignment if and only if the assignment binds all its variables and the constraint is false for those values; a partial assignment is never rejected. An all-different constraint is true exactly when its variables have pairwise different values, an expression constraint exactly when its expression is non-zero, compiled or not, and a constant constraint exactly when the constant is true.",
 ["inputs"], "all constraints, all partial and complete assignments, compiled or not",
 "No test touches a constraint; the claim ranges over all assignments and both evaluation modes.",
 [S+"constraint.py"],
 [("Constraint.unsatisfied", S+"constraint.py"), ("evaluate of each class", S+"constraint.py")],
 observe=["Constraint.unsatisfied", "Constraint.evaluate", "Constraint.free_vars"])
prop("C05", "A model stays well formed, and a rejected change leaves it untouched",
 "In every model reached by any sequence of add operations, variable and parameter names are pairwise different, explicit names are a letter followed by letters, digits or underscores, no variable's domain repeats a value, and every constraint mentions only names already defined; an add operation that raises leaves the model's variables and constraints as they were. A constraint without variables is judged when it is added: a true one is dropped, a false one makes the model unsolvable, and a model marked unsolvable has no solutions.",
 ["histories", "inputs"], "all sequences of model operations, successful or failing",
 "No test builds a model.",
 [S+"model.py"],
 [("name and domain validation", S+"model.py _check_name, _get_variable, _get_parameter, add_int_variable"),
  ("constraint validation", S+"model.py add_constraint"), ("solvable flag", S+"model.py set_solvable, solvable")],
 state=[("variables", "ordered map name -> (variable, domain)", S+"model.py Model._variables"),
        ("constraints", "list of constraints", S+"model.py Model._constraints")],
 observe=["Model.variables", "Model.constraints", "Model.solvable"])
prop("C06", "Every solution the solver yields is a solution",
 "Every assignment yielded by solving a model, under any variable selection policy, timeout, limit and compile setting, binds exactly the model's variables, each to a value of its domain, and satisfies every constraint of the model and every additional constraint passed to the call, with parameters at the values they have during the call.",
 ["inputs", "configurations", "histories"], "all models (not forced back to solvable by hand after a false constant constraint), domains being sized re-iterable collections, all solver configurations with a positive limit, all earlier uses of the same solver and model",
 "No test runs the solver.",
 [S+"solver.py"],
 [("backtracking search", S+"solver.py Solver.solve"), ("constraint indexing and unary filtering", S+"solver.py Solver._setup")],
 state=[("stack", "partial assignments of the current branch", S+"solver.py Solver.solve"),
        ("domains", "values still to try per bound variable", S+"solver.py Solver.solve")],
 observe=["Solver.solve", "ModelSolver.__iter__"])
prop("C07", "An uninterrupted search yields every solution exactly once",
 "For a model with at least one variable, a search that runs to its end without being cut by a limit or timeout yields every assignment that satisfies the model (and the additional constraints, when these do not change during the search) exactly once. Hence the set of solutions is the same for every variable selection policy, with constraint compilation on or off, and however often the model is solved.",
 ["inputs", "configurations", "histories"], "all models with at least one variable (an empty model yields nothing by design), all selection policies and compile settings",
 "No test runs the solver; completeness needs all models, not samples.",
 [S+"solver.py"],
 [("backtracking search", S+"solver.py Solver.solve"), ("constraint indexing and unary filtering", S+"solver.py Solver._setup"),
  ("variable ordering policies", S+"solver.py Solver.solve")],
 observe=["Solver.solve", "ModelSolver.__iter__"])
prop("C08", "Limits and timeouts are respected and truthfully reported",
 "With a positive limit n a search yields at most n solutions; the statistics report the number of solutions yielded so far and report an interruption 'limit' or 'timeout' if and only if the search was cut for that reason, so an ended search that reports no interruption was exhaustive. A timeout or limit given to the call overrides the one of the solver, and when searches on a solver run one after the other, the report concerns the latest one.",
 ["inputs", "configurations", "histories", "schedules"], "all models, all limits and timeouts, all clock readings, all sequences of searches on one solver",
 "No test runs the solver; timeouts depend on clock readings that tests do not control.",
 [S+"solver.py", S+"utils.py"],
 [("limit/timeout handling", S+"solver.py Solver.solve"), ("statistics", S+"solver.py Solver.get_stats, _reset; utils.py Timer")],
 state=[("interrupt", "why the last search was cut, if it was", S+"solver.py Solver._interrupt")],
 observe=["Solver.solve", "Solver.get_stats", "ModelSolver.get_stats"])
prop("C09", "Optimization yields strictly improving solutions",
 "When optimizing one objective, every yielded solution satisfies the model and is strictly better for the objective than every solution yielded before it in the same run (larger when maximizing, smaller when minimizing), under every selection policy and compile setting. Parameters the optimizer adds for its own use never appear in a solution.",
 ["inputs", "configurations"], "all models, all objective expressions, all solver configurations",
 "No test runs the optimizer; the bound changes while the search is suspended between solutions, which only particular models expose.",
 [S+"solver.py", S+"objective.py"],
 [("objective bound constraint", S+"objective.py MinMaxConstraint.set_bound, MinMax.add_solution"),
  ("bound re-check during search", S+"solver.py Solver.optimize, Solver.solve")],
 state=[("bound", "value of the last solution and whether there is one", S+"objective.py MinMaxConstraint")],
 observe=["Solver.optimize"])
prop("C10", "A solution reported optimal is optimal",
 "If optimizing reports an optimal solution, it satisfies the model and no assignment satisfying the model is strictly better for the objective; if the search was not interrupted, a solution is reported if and only if the model has one. A solution found by an interrupted search is never reported as optimal.",
 ["inputs", "configurations"], "all models with at least one variable, all objective expressions, all solver configurations",
 "No test runs the optimizer; optimality is a claim over all assignments.",
 [S+"solver.py", S+"objective.py"],
 [("optimal_solution", S+"solver.py Solver.optimal_solution"), ("objective bound constraint", S+"objective.py")],
 observe=["Solver.optimal_solution"])
prop("C11", "Sudoku solving yields exactly the valid completions",
 "For a 9x9 schema of digits and blanks with at least one blank, solving without limit yields exactly the complete grids that agree with the given digits and have all digits 1-9 in every row, column and 3x3 block, each once; contradictory clues yield nothing. By default at most one grid is yielded.",
 ["inputs"], "all 9x9 schemas with at least one blank",
 "No test runs the sudoku front-end.",
 [S+"sudoku.py"], [("model construction", S+"sudoku.py SudokuSolver.__init__"), ("decoding", S+"sudoku.py SudokuSolver.__iter__")],
 observe=["SudokuSolver.__iter__"])
prop("C12", "The queens solver yields exactly the non-attacking placements",
 "For every board size n >= 1, solving yields exactly the n x n boards with one queen per row and column and no two queens on a diagonal, each once.",
 ["inputs"], "all board sizes",
 "No test runs the queens front-end.",
 [S+"tool/queens.py"], [("model construction", S+"tool/queens.py QueensSolver.__init__"), ("decoding", S+"tool/queens.py QueensSolver.__iter__")],
 observe=["QueensSolver.__iter__"])
prop("C13", "Graph labeling yields exactly the proper labelings",
 "For every graph with at least one node and every list of pairwise different labels, solving yields exactly the assignments of a label to every node in which the two ends of every edge have different labels, each once; a graph with a self-loop has none.",
 ["inputs"], "all graphs (directed or not, with or without parallel edges and self-loops), all label lists",
 "No test runs the graph front-end.",
 [S+"graph_labeling.py"], [("model construction", S+"graph_labeling.py GraphLabelingSolver.__init__"), ("decoding", S+"graph_labeling.py GraphLabelingSolver.__iter__")],
 observe=["GraphLabelingSolver.__iter__"])
prop("C14", "The knapsack optimizer returns a best feasible selection",
 "For every knapsack instance with at least one item and any integer values, capacities and weights, an uninterrupted run returns a selection whose total weight respects every capacity and whose total value no other feasible selection exceeds, together with that value and those total weights, reported as optimal; if no selection is feasible it returns none. Malformed instances (wrong number of weights, non-integers) are rejected with an error.",
 ["inputs"], "all instances with at least one item",
 "No test runs the knapsack front-end.",
 [S+"knapsack.py"], [("model construction", S+"knapsack.py KnapsackOptimizer.__init__"), ("objective and decoding", S+"knapsack.py KnapsackOptimizer.__call__")],
 observe=["KnapsackOptimizer.__call__"])
prop("C15", "The nonogram solver yields exactly the pictures that match the clues",
 "For every nonogram with positive run lengths and at least one run, solving yields exactly the pictures whose rows and columns have the given runs, each once; clues that do not fit yield nothing.",
 ["inputs"], "all nonograms with positive run lengths",
 "No test runs the nonogram front-end.",
 [S+"nonogram.py"], [("model construction", S+"nonogram.py NonogramSolver.__init__"), ("decoding", S+"nonogram.py NonogramSolver.__iter__")],
 observe=["NonogramSolver.__iter__"])
prop("C16", "Nonogram clues extracted from a picture are its run lengths",
 "For every rectangular picture, the clues extracted from it list, for each row and each column in order, the lengths of its maximal runs of filled cells; any non-zero cell counts as filled.",
 ["inputs"], "all rectangular pictures of any size",
 "No test calls it.",
 [S+"nonogram.py"], [("run-length extraction", S+"nonogram.py pixmap_to_nonogram, pixmap_shape")],
 observe=["pixmap_to_nonogram", "pixmap_shape"])
prop("C17", "Cryptarithm solving yields exactly the valid digit assignments",
 "For every cryptarithm of words and numbers joined by + - * and ==, with at least one letter, solving yields exactly the assignments of pairwise different digits to its letters that make the equation true and, unless leading zeros are allowed, give no number a leading zero; each once. Letters are case-insensitive.",
 ["inputs", "configurations"], "all cryptarithm sources in the stated grammar, both leading-zero settings",
 "No test runs the cryptarithm front-end.",
 [S+"cryptarithm.py"], [("source rewriting and model construction", S+"cryptarithm.py CryptarithmSolver.__init__")],
 observe=["CryptarithmSolver.__iter__"])
prop("C18", "Map coloring never gives two touching regions the same color",
 "For every ascii map with at least one region (cells other than space and dot) and pairwise different colors, each yielded coloring gives every cell of a region (a maximal group of equal characters connected in the eight directions) the color of that region, and gives any two touching cells of different regions different colors; blank cells stay blank, and every such coloring of the regions is yielded once when no limit applies.",
 ["inputs"], "all ascii maps, all color lists",
 "No test runs the map front-end.",
 [S+"tool/ascii_map_coloring.py", S+"graph_labeling.py"], [("region growing and adjacency", S+"tool/ascii_map_coloring.py AsciiMapColoringSolver.__init__")],
 observe=["AsciiMapColoringSolver.__iter__"])
prop("C19", "The timer accounts exactly for the intervals it was running",
 "After any sequence of start, stop and abort calls, for any non-decreasing clock, the elapsed time is the total length of the running intervals (including the current one while running) and the count is the number of stops that were not aborts; starting a running timer or stopping an idle one raises and changes nothing, and aborting an idle one does nothing.",
 ["histories", "inputs"], "all call sequences, all clock readings",
 "No test touches the timer; the clock is not controlled.",
 [S+"utils.py"], [("Timer", S+"utils.py")],
 state=[("elapsed, start, count", "accumulated time, start of the current interval, number of stops", S+"utils.py Timer")],
 observe=["Timer.elapsed", "Timer.count", "Timer.stats", "Timer.running"])
prop("C20", "Searches do not disturb each other, the model or their caller",
 "Solving leaves the model's variables, domains and constraints unchanged, and every yielded solution is an independent object: modifying it, keeping it, abandoning the search, or interleaving it with other searches on the same solver and model never changes what this or any other search yields.",
 ["histories", "schedules"], "all interleavings of searches, caller modifications of yielded solutions, and abandoned searches",
 "No test runs two searches or modifies a solution.",
 [S+"solver.py"], [("per-search local state, copied assignments", S+"solver.py Solver.solve, Solver._setup")],
 observe=["Solver.solve"])
prop("C21", "Expressions reported equal are interchangeable",
 "If two expressions without parameters are reported equal by their equality test, they have the same kind and evaluate to the same value under every assignment, and an expression is always reported equal to an identically built copy of itself.",
 ["inputs", "programs"], "all pairs of expressions, all assignments",
 "No test calls it.",
 [S+"expression.py"], [("structural equality", S+"expression.py equals of every class")],
 observe=["Expression.equals"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
