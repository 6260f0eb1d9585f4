"""Invalid calls of the Python API for E01: each raises an exception and leaves the objects usable."""

PRG = "{a;b}. #external e. &t{1,a,f(1):a}. #theory th{u{};&t/0:u,any}."
# expressions on the object of the category
T = {
    "ctl": [
        'solve(1)',
        'solve(["x"])',
        'solve([F("a")])',
        'solve([(F("a"),)])',
        'solve(1.5)',
        'solve(yield_="x",zz=1)',
        'add()',
        'add(1)',
        'add("a")',
        'add("base",1,"a.")',
        'add("base",[1],"a.")',
        'add("base",[],1)',
        'add("base",[],None)',
        'add("base",["x"],b"a.")',
        'ground(1)',
        'ground([1])',
        'ground(["base"])',
        'ground([("base",)])',
        'ground([("base",[1])])',
        'ground([("base",["x"])])',
        'ground([(1,[])])',
        'ground([("zz",[])],zz=1)',
        'load(1)',
        'load(None)',
        'load("/nonexistent")',
        'load([])',
        'get_const(1)',
        'get_const(None)',
        'assign_external(None,True)',
        'assign_external(F("e"))',
        'assign_external("e",True)',
        'assign_external(1.5,True)',
        'release_external("e")',
        'release_external(None)',
        'release_external(1.5)',
        'release_external()',
        'register_propagator()',
        'register_observer()',
        'nofield',
        'nofield()',
        'enable_cleanup()',
        'is_conflicting()',
        'theory_atoms()',
        'symbolic_atoms()',
        'configuration.zz',
        'configuration["x"]',
        'theory_atoms.zz',
        'is_conflicting.x()',
    ],
    "be": [
        'add_rule()',
        'add_rule(1)',
        'add_rule(["x"])',
        'add_rule([1.5])',
        'add_rule([None])',
        'add_rule([1],["x"])',
        'add_rule([1],1)',
        'add_rule([1],[1.5])',
        'add_weight_rule()',
        'add_weight_rule([1])',
        'add_weight_rule([1],1)',
        'add_weight_rule([1],"x",[])',
        'add_weight_rule([1],1,[1])',
        'add_weight_rule([1],1,[(1,"x")])',
        'add_weight_rule([1],1,[(1,2,3)])',
        'add_weight_rule([1],2**31,[])',
        'add_weight_rule([1],1,[(1,2**31)])',
        'add_minimize()',
        'add_minimize(1)',
        'add_minimize(1,1)',
        'add_minimize("x",[])',
        'add_minimize(1,[1])',
        'add_minimize(2**31,[])',
        'add_external()',
        'add_external("x")',
        'add_external(1,"x")',
        'add_external(1,True)',
        'add_external(1,1)',
        'add_external(-1)',
        'add_external(2**32)',
        'add_atom("x")',
        'add_atom(1)',
        'add_atom(1.5)',
        'add_project(1)',
        'add_project(["x"])',
        'add_project([-1])',
        'add_assume(1)',
        'add_assume(["x"])',
        'add_heuristic()',
        'add_heuristic(1)',
        'add_heuristic(1,1,1,1,[])',
        'add_heuristic(1,backend.HeuristicType.Sign,"x",1,[])',
        'add_heuristic(1,backend.HeuristicType.Sign,1,-1,[])',
        'add_heuristic(1,backend.HeuristicType.Sign,2**31,1,[])',
        'add_acyc_edge()',
        'add_acyc_edge("x",1,[])',
        'add_acyc_edge(1,1,1)',
        'add_theory_term_number("x")',
        'add_theory_term_number(2**31)',
        'add_theory_term_string(1)',
        'add_theory_term_function(1,[])',
        'add_theory_term_function("f",["x"])',
        'add_theory_term_sequence(1,[])',
        'add_theory_term_symbol(1)',
        'add_theory_element(["x"],[])',
        'add_theory_element([],["x"])',
        'add_theory_element([],[1.5])',
        'add_theory_atom()',
        'add_theory_atom("x",[])',
        'nofield()',
        '__enter__(1)',
    ],
    "conf": [
        'solve.zzz',
        'solve.__setattr__("zzz",1)',
        'solve.__setattr__("models","x")',
        'solve.__setattr__("models",None)',
        'solve.__setattr__("models",[])',
        'zzz.y',
        '__setattr__("solve","x")',
        'solve.description("zz")',
        'solve.description(None)',
        'solve.zz()',
        'solver[-1]',
        'solver["0"]',
        'solver[99]',
        'solver[1.5]',
        '[0]',
        '__setitem__(0,1)',
        'solver.__setitem__(0,1)',
        'solve.models()',
    ],
    "sa": [
        '__getitem__("x")',
        '__getitem__(None)',
        '__getitem__(1)',
        'by_signature()',
        'by_signature("a")',
        'nofield()',
        'nofield',
    ],
    "m": [
        'symbols(zz=True)',
        'extend(1)',
        'extend()',
        'extend(["x"])',
        'extend([None])',
        'contains("x")',
        'contains(None)',
        'contains()',
        'is_true("x")',
        'is_true()',
        'is_true(None)',
        'is_true(1.5)',
        'context.add_clause()',
        'context.add_clause(1)',
        'context.add_clause(["x"])',
        'context.add_clause([F("a")])',
        'context.add_clause([(F("a"),)])',
        'context.add_clause([None])',
        'context.add_clause([1.5])',
        'context.add_nogood([None])',
        'context.nofield',
        'nofield',
        'cost()',
        'number()',
    ],
    "init": [
        'add_watch()',
        'add_watch("x")',
        'add_watch(None)',
        'add_watch(1,"x")',
        'add_watch(1.5)',
        'solver_literal()',
        'solver_literal("x")',
        'solver_literal(1.5)',
        'add_clause()',
        'add_clause(1)',
        'add_clause(["x"])',
        'add_clause([None])',
        'add_clause([F("a")])',
        'add_clause([1.5])',
        'add_weight_constraint()',
        'add_weight_constraint(1)',
        'add_weight_constraint(1,[])',
        'add_weight_constraint(1,[1],1)',
        'add_weight_constraint(1,[(1,"x")],1)',
        'add_weight_constraint(1,[(1,1,1)],1)',
        'add_weight_constraint(1,[(1,1)],"x")',
        'add_weight_constraint(1,[(1,1)],2**31)',
        'add_weight_constraint("x",[(1,1)],1)',
        'add_weight_constraint(1,[(1,1)],1,"x")',
        'add_minimize()',
        'add_minimize(1)',
        'add_minimize(1,"x")',
        'add_minimize("x",1)',
        'add_minimize(1,2**31)',
        'add_minimize(1,1,"x")',
        'nofield',
        'add_literal(1,1)',
        'freeze_literal("x")',
        'remove_watch("x")',
        'assignment.value()',
        'assignment.value("x")',
        'assignment.value(None)',
        'assignment.value(1.5)',
        'assignment.decision("x")',
        'assignment.decision(99)',
        'assignment.level("x")',
        'assignment.is_true("x")',
        'assignment.has_literal()',
        'assignment.has_literal("x")',
        'assignment.trail["x"]',
        'assignment.trail[99]',
        'assignment.trail[-99]',
        'assignment.trail.begin("x")',
        'assignment.trail.begin(99)',
        'assignment["x"]',
        'assignment[99]',
        'assignment[-99]',
        'assignment.zz',
        'trail',
        '__setattr__("check_mode","x")',
    ],
    "th": [
        'zz',
        'zz()',
        'type',
        'term.zz',
        'elements.zz',
        'elements[1]',
        'elements[-2]',
        'elements["x"]',
        'elements[0].zz',
        'elements[0].condition.zz',
        'elements[0].terms[0].name',
        'elements[0].terms[1].number',
        'elements[0].terms[2].number',
        'elements[0].terms[3]',
        'term.number',
        'guard.zz',
        '__call__()',
    ],
    "sym": [
        'zz',
        'string',
        'arguments',
        'name',
        'positive',
        'negative',
        'match()',
        '__call__()',
        'number()',
    ],
}
WANT = ([[], ["a"], ["a", "b"], ["b"]], "SAT", True, "0")


def apply(cat, ctl, f):
    """Call f with the object of the category."""
    if cat == "ctl":
        f(ctl)
    elif cat == "be":
        with ctl.backend() as be:
            be.add_atom()
            be.add_atom()
            f(be)
    elif cat == "conf":
        f(ctl.configuration)
    elif cat == "sa":
        f(ctl.symbolic_atoms)
    elif cat == "sym":
        f(clingo.Number(1))
    elif cat == "th":
        for a in ctl.theory_atoms:
            f(a)
    elif cat == "m":
        n = []

        def on_model(m):
            n.append(1)
            if len(n) <= 2:
                f(m)

        ctl.solve(on_model=on_model)
    elif cat == "init":

        class P:
            n = 0

            def init(self, i):
                self.n += 1
                if self.n == 1:
                    f(i)

        ctl.register_propagator(P())
        ctl.solve()


def models(ctl):
    r = []
    res = ctl.solve(on_model=lambda m: r.append(sorted(map(str, m.symbols(atoms=True)))))
    return sorted(r), str(res), res.exhausted, ctl.configuration.solve.models


def explore(ctx, cat):
    global clingo
    import clingo
    import clingo.backend

    env = {"F": clingo.Function, "N": clingo.Number, "S": clingo.String, "backend": clingo.backend}
    items = [(e, compile("o" + ("" if e.startswith("[") else ".") + e, "misuse", "eval")) for e in T[cat]]

    def run(*its):
        where = cat + ": " + ", then ".join(e for e, _ in its)
        ctx.journal(where)
        ctx.execs += 1
        ctx.state(where)
        ctl = clingo.Control(["0"], logger=lambda c, m: None, message_limit=1000)
        ctl.add("base", [], PRG)
        ctl.ground([("base", [])])

        def f(o):
            for e, code in its:
                try:
                    x = eval(code, dict(env, o=o))
                except Exception:
                    continue
                ctx.fail("python: invalid call is accepted: %s %s" % (cat, e), "%s: returned %r" % (where, x))

        try:
            apply(cat, ctl, f)
        except Exception as e:
            ctx.fail("python: an invalid call that was caught breaks the object: " + where, repr(e))
        try:
            r = models(ctl)
        except Exception as e:
            ctx.fail("python: an invalid call breaks the control: " + where, repr(e))
        else:
            ctx.check(r == WANT, "python: an invalid call changes the control: " + where, "%r instead of %r" % (r, WANT))

    for a in items:
        run(a)
        for b in items:
            run(a, b)
