"""Which contract modules decide which property."""
LEMMAS = "the fold lemmas (prefix, concatenation, zero product, monotonicity) used as axioms; contracts/lemmas.py states them for an inductive proof"
TYPES = "values read from typed containers and fields are well formed (the type tables of contracts/), and expression nodes are not changed after construction (checked syntactically)"
PROPS = {
    "C01": dict(modules=["expr"], level="proof", assumes=[LEMMAS, TYPES],
        note="Every operator method, constructor and evaluate of every expression class is verified for all operands against the Python meaning of its node kind; calls on sub-expressions are known by contract only (structural induction)."),
    "C02": dict(modules=["compiled"], level="proof", assumes=[LEMMAS, TYPES, "Python's parser gives the meaning of source text; a sub-expression's text in any of its forms (name, number, call, parentheses) is one operand",
                "variable names start with a letter (so helper names cannot be captured) and contain no keyword-only spelling that parses differently after NFKC than the identifier itself", "printing of integers (sys.int_info limits) does not fail: a refusal would be interpreted instead"],
        note="py_expr of every expression class yields, by structural induction, source text whose meaning under Python's parser is the value of the expression; py_source, compile_py_function and as_function are verified on top, the fallback included."),
    "C03": dict(modules=["expr"], level="proof", assumes=[LEMMAS, TYPES],
        note="vars, free_vars and evaluate of every expression class are verified against the set of variables the value depends on, for all assignments."),
    "C04": dict(modules=["cons"], level="proof", assumes=[LEMMAS, TYPES, "Expression.as_function is known by the contract that property C02 is about: the compiled function gives the value of the expression"],
        note="Constructor, vars, evaluate, unsatisfied, free_vars, compile and reset of every constraint class, verified against one arbitrary valuation."),
    "C05": dict(modules=["model"], level="proof", assumes=[LEMMAS, TYPES, "a domain is a sized collection that can be iterated again and is not changed by the caller afterwards", "constraints are known by the contracts C04 verifies"],
        note="Every Model method keeps the model invariant and changes the variables, the constraints and the solvable mark exactly as specified, for all models."),
    "C06": dict(modules=["search"], level="proof", proof_budget=400, per_task=250, wide=60, assumes=[TYPES, "domains can be iterated again, do not repeat values, and are not changed during a search", "constraints are known by the contracts C04 verifies: truth depends on the values of the constraint's variables only; an all-different constraint is true exactly when they differ",
                "every variable of a constraint is a variable of the model (C05) with a domain, and a constraint has at least one variable", "compiling or resetting a constraint does not change its meaning (C02, C04)",
                "an additional constraint may change its meaning while the search is suspended (objectives), not otherwise"],
        note="Solver._setup and Solver.solve verified together by an invariant of the main search loop: from any state in which it holds, what is yielded binds exactly the variables of the model, to values of their domains, and satisfies every constraint of the model and every additional one."),
    "C07": dict(modules=["search"], level="proof", proof_budget=450, per_task=300, wide=60, assumes=[TYPES, "domains can be iterated again in the same order, do not repeat values, and are not changed during a search", "constraints are known by the contracts C04 verifies: truth depends on the values of the constraint's variables only; an all-different constraint is true exactly when they differ",
                "every variable of a constraint is a variable of the model (C05) with a domain, and a constraint has at least one variable", "compiling or resetting a constraint does not change its meaning (C02, C04)",
                "additional constraints do not change (as the statement says); a model with a solution is not marked unsolvable (C05)", "the search ends (partial correctness)"],
        note="One arbitrary solution is followed through Solver._setup and Solver.solve: the main loop's invariant says whether it is still to come or was yielded, and that nothing is tried twice; a search that ends without limit or timeout has yielded it exactly once, under every policy."),
    "C08": dict(modules=["search"], level="proof", assumes=[TYPES, "the searches of a solver run one after the other while their reports are read (the statement says so)", "clock readings are exact numbers and do not go backwards",
                "Solver._setup is known here by its frame only (it makes new objects and does not touch the solver's report); C20 verifies it", "that nothing left to try means exhaustive is property C07",
                "the limit is positive when there is one; a timeout in force is a number or None"],
        note="Solver.solve is verified from its entry under every policy to its main loop, and its main loop from any state: counts, limit, timeout and report, at every yield and every end; constructor, settings and get_stats as well."),
    "C09": dict(modules=["opt"], level="proof", assumes=[TYPES, "the objective's expression and its parameters are not changed during a run, and its arithmetic is defined on assignments", "Solver.solve is known by the contract C06 is about: what it yields binds the variables of the model and satisfies the model and every additional constraint as it stands at that moment; each solution is a new object (C20)",
                "a compiled function gives the value of the expression with the parameter values of the moment it was compiled (C02)", "Model.add_parameter makes a new parameter, which is no variable of the model (C05)", "the expressions built by the operators have the value Python gives to them, for all values of parameters (C01)"],
        note="make_constraint and add_solution of both objectives are verified (nothing is excluded at first; then exactly what is strictly better than the solution last noted, compiled or not), and Solver.optimize by a loop invariant over those contracts and that of Solver.solve."),
    "C10": dict(modules=["opt"], level="proof", assumes=[TYPES, "as for C09", "a search that is not interrupted has yielded every solution that satisfied the additional constraints in all the states they were in (the statement C07 proves), and reports no interruption only if it was exhaustive (C08)"],
        note="Solver.optimize is verified with one arbitrary solution of the model followed through the run: it is never excluded as long as it is better than the last one yielded; Solver.optimal_solution on top: what is reported optimal is optimal, and interrupted runs report nothing optimal."),
    "C19": dict(modules=["timer"], level="proof",
        assumes=["clock readings and their sums are exact numbers (the code uses floats); the clock does not go backwards", "a timer is changed only through its methods"],
        note="Every Timer method is verified against the transition of (finished intervals, count, start) it must make, for all states and all clock readings."),
    "C20": dict(modules=["search"], level="proof", assumes=[TYPES, "other searches and the caller change only what their own frame allows at a yield (the solver's report, compiled forms of constraints, their own objects, the solution they were given)",
                "the caller does not change the model or its domains during a search", "compiling or resetting a constraint does not change its meaning (C02, C04)"],
        note="Frame of Solver.solve and Solver._setup: nothing that existed before a search is changed except the solver's report and compiled forms; every solution is an object of its own that the search does not keep; the search goes on whatever others do at a yield."),
    "C21": dict(modules=["equals"], level="proof", assumes=[TYPES, "Expression.evaluate and the constructors are known by the contracts C01 verifies"],
        note="equals is verified against structural equality and copy against a structurally equal expression without shared parameters, for every expression class and all operands."),
}
TODO = "contracts for this property are not built yet"
NOT_APPLICABLE = {p: TODO for p in ("C11 C12 C13 C14 C15 C16 C17 C18").split()}
COMMON = ["the VC generator pyvc (Python semantics of the subset it accepts) and the solvers z3 and cvc5",
          "messages of raised exceptions and logging calls are not evaluated by the generator",
          "integers are mathematical (as in Python); termination and resource exhaustion are not proved"]
