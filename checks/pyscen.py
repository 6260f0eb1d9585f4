"""Scenarios exercising every operation of the Python API, shared by E01, E02 and E03.

A scenario is a function of a runner r. It performs its operations through
  r.op(name, fn)   an operation that may change state
  r.q(name, fn)    a pure query: repeating it after a failure must give the same result
and hands user callbacks to the API wrapped with r.cb(fn)."""
import gc
import os
import tempfile

SCEN = {}
OLD = "/eng" not in os.environ.get("LD_LIBRARY_PATH", "")  # running with the installed library, which lacks some functions


def scenario(f):
    SCEN[f.__name__] = f
    return f


def _file(txt, suffix=".lp"):
    fd, p = tempfile.mkstemp(suffix=suffix, dir=".")
    os.write(fd, txt.encode())
    os.close(fd)
    return p


FILE = None


def thefile():
    global FILE
    if FILE is None:
        FILE = (_file("f(1). g :- not h.\n"), _file("asp 1 0 0\n1 0 1 1 0 0\n4 1 x 1 1\n0\n", ".aspif"))
    return FILE


def syms(xs):
    return sorted(map(str, xs))


@scenario
def symbols(r):
    import clingo
    from clingo.symbol import Function, Number, String, Tuple_, parse_term

    r.q("Function", lambda: str(Function("f", [Number(1), String("x"), Function("a", [], False)])))
    r.q("Tuple_", lambda: str(Tuple_([Number(1)])))
    r.q("String", lambda: str(String("x")))
    f = Function("f", [Number(1), String("x")], False)
    r.q("arguments", lambda: syms(f.arguments))
    r.q("name", lambda: f.name)
    r.q("positive", lambda: f.positive)
    r.q("negative", lambda: f.negative)
    r.q("number", lambda: Number(3).number)
    r.q("string", lambda: String("abc").string)
    r.q("str", lambda: str(f))
    r.q("repr", lambda: repr(f))
    r.q("match", lambda: f.match("f", 2, False))
    r.q("type", lambda: f.type)
    r.q("parse_term", lambda: str(parse_term("f(1+2)")))
    r.q("parse_term logger", lambda: str(parse_term("f(1+2)", lambda c, m: None)))


@scenario
def control(r):
    from clingo import Control, Function, Number

    lp, aspif = thefile()
    r.op("Control()", lambda: Control())
    ctl = r.op("Control(args)", lambda: Control(["-c", "k=3", "0"], lambda c, m: None, 5))
    if ctl is None:
        return
    r.op("add1", lambda: ctl.add("{a; b; c(1..2)}. #external e(1..2). x(k). :- e(1), a. #show a/0. #minimize{1@2:a}. #project a."))
    r.op("add3", lambda: ctl.add("p", ["n"], "q(n). r(n) :- a."))
    r.op("load", lambda: ctl.load(lp))
    r.op("ground", lambda: ctl.ground())
    r.op("ground parts", lambda: ctl.ground([("p", [Number(1)]), ("p", [Number(2)])]))
    r.q("get_const", lambda: str(ctl.get_const("k")))
    r.q("get_const none", lambda: ctl.get_const("zz"))
    r.q("conflict", lambda: ctl.is_conflicting)
    e1, e2, un = Function("e", [Number(1)]), Function("e", [Number(2)]), Function("zz")
    for v in (True, False, None):
        r.op("assign_external", lambda: ctl.assign_external(e1, v))
        r.op("assign_external unknown", lambda: ctl.assign_external(un, v))
    lit = r.q("literal", lambda: ctl.symbolic_atoms[e2].literal)
    if lit is not None:
        r.op("assign_external literal", lambda: ctl.assign_external(lit, True))
    r.op("release_external", lambda: ctl.release_external(e1))
    if lit is not None:
        r.op("release_external literal", lambda: ctl.release_external(lit))
    r.op("add_project", lambda: ctl.add_project([Function("a"), Function("b")]))
    r.op("replace_project", lambda: ctl.replace_project([Function("b"), un]))
    r.op("remove_project", lambda: ctl.remove_project())
    r.op("remove_minimize", lambda: ctl.remove_minimize())
    r.op("cleanup", lambda: ctl.cleanup())

    def prop(n):
        def f():
            setattr(ctl, n, not getattr(ctl, n))
            v = getattr(ctl, n)
            setattr(ctl, n, not v)
            return v

        return f

    r.op("enable_cleanup", prop("enable_cleanup"))
    r.op("enable_enumeration_assumption", prop("enable_enumeration_assumption"))
    r.op("interrupt", lambda: ctl.interrupt())
    # symbolic atoms
    sa = r.q("symbolic_atoms", lambda: ctl.symbolic_atoms)
    if sa is not None:
        r.q("len", lambda: len(sa))
        r.q("iter", lambda: [(str(x.symbol), x.literal, x.is_fact, x.is_external) for x in sa])
        r.q("by_signature", lambda: [str(x.symbol) for x in sa.by_signature("c", 1)])
        r.q("by_signature neg", lambda: [str(x.symbol) for x in sa.by_signature("c", 1, False)])
        r.q("signatures", lambda: sorted(sa.signatures))
        r.q("contains", lambda: [Function("a") in sa, un in sa, 1 in sa])
        r.q("getitem", lambda: [str(sa[Function("a")].symbol), sa[un]])
        r.q("atom.match", lambda: sa[Function("a")].match("a", 0))
    c2 = r.op("Control 2", lambda: Control())
    if c2 is not None:
        r.op("load_aspif", lambda: c2.load_aspif([aspif]))
        r.op("solve aspif", lambda: str(c2.solve()))


@scenario
def context(r):
    """External functions called while grounding."""
    from clingo import Control, Function, Number

    class Ctx:
        pass

    ctx = Ctx()
    ctx.f = r.cb(lambda x: [Number(x.number + i) for i in range(2)])
    ctx.g = r.cb(lambda *a: Function("t", list(a)))
    ctx.h = r.cb(lambda: [])
    ctl = Control()
    r.op("add", lambda: ctl.add("a(@f(1)). b(@g(X,2)) :- a(X). c(@h()). d :- not c(1). p(X) :- X=@f(3)."))
    r.op("ground context", lambda: ctl.ground([("base", [])], ctx))
    r.op("add more", lambda: [ctl.add("p", [], "p(@f(1))."), ctl.add("q", ["n"], "q(@f(n)).")] and None)
    r.op("ground part", lambda: ctl.ground([("p", [])], ctx))
    r.op("ground part 2", lambda: ctl.ground([("q", [Number(3)])], ctx))
    r.q("atoms", lambda: [str(x.symbol) for x in ctl.symbolic_atoms])
    r.after(lambda: str(ctl.solve()))


def _model(m):
    return (
        [syms(m.symbols(**k)) for k in ({"atoms": True}, {"terms": True}, {"shown": True}, {"theory": True}, {"atoms": True, "complement": True})],
        str(m), m.cost, OLD or m.priority, m.number, m.optimality_proven, m.thread_id, str(m.type), [m.is_true(l) for l in (1, -1)], OLD or m.is_consequence(1),
    )


@scenario
def solve(r):
    from clingo import Control, Function

    a, b, un = Function("a"), Function("b"), Function("zz")
    ctl = Control(["0"])
    r.op("add", lambda: ctl.add("{a; b}. #show a/0. #show t : b. #minimize{1@2:a; 1@1:b}."))
    r.op("ground", lambda: ctl.ground())
    ctl.configuration.solve.opt_mode = "ignore"

    def probe():
        out = []
        ctl.solve(on_model=lambda m: out.append(syms(m.symbols(atoms=True))))
        return sorted(out)

    r.after(probe)
    r.op("solve", lambda: str(ctl.solve()))
    out = []
    r.op("solve on_model", lambda: (str(ctl.solve(on_model=r.cb(lambda m: out.append(_model(m)))))))
    r.op("model context", lambda: str(ctl.solve(on_model=r.cb(lambda m: m.context.add_clause([(a, True), (un, False), 1])))))
    r.op("model nogood", lambda: str(ctl.solve(on_model=r.cb(lambda m: m.context.add_nogood([(a, True), (un, True), -1])))))
    r.op("model atoms", lambda: str(ctl.solve(on_model=r.cb(lambda m: [m.contains(a), m.contains(un), len(m.context.symbolic_atoms), m.extend([un])] and None))))
    r.op("on_finish", lambda: str(ctl.solve(on_finish=lambda x: str(x))))
    r.op("on_core", lambda: str(ctl.solve([(a, True), (a, False), (un, True)], on_core=r.cb(lambda c: None))))
    r.op("on_last", lambda: str(ctl.solve(**({} if OLD else {"on_last": r.cb(lambda m: _model(m))}))))
    r.op("everything", lambda: str(ctl.solve([(a, True), 1], on_model=r.cb(lambda m: None), on_finish=lambda x: None)))

    def yielding(**kw):
        res = []
        with ctl.solve(yield_=True, **kw) as h:
            for m in h:
                res.append(_model(m))
            res.append(str(h.get()))
            h.core()
        return res

    r.op("yield", yielding)
    r.op("yield on_model", lambda: yielding(on_model=r.cb(lambda m: None), on_finish=lambda x: None))

    def manual():
        with ctl.solve(yield_=True, async_=True) as h:
            h.resume()
            h.wait()
            m = h.model()
            m.context.add_clause([(a, True)])
            h.resume()
            h.wait(1)
            h.model()
            OLD or h.last()
            h.cancel()
            return str(h.get())

    r.op("yield async manual", manual)

    def asyn():
        with ctl.solve(async_=True, on_model=r.cb(lambda m: None), on_finish=lambda x: None) as h:
            h.wait()
            OLD or h.last()
            return str(h.get())

    r.op("async", asyn)

    def broken():
        h = ctl.solve(yield_=True)
        with h:
            h.resume()

    r.op("yield partial", broken)

    def unsat():
        ctl.configuration.solve.opt_mode = "opt"
        try:
            return str(ctl.solve(on_unsat=lambda l: None, on_model=r.cb(lambda m: None)))
        finally:
            ctl.configuration.solve.opt_mode = "ignore"

    r.op("on_unsat", unsat)


@scenario
def conf(r):
    from clingo import Control

    ctl = Control(["0"])
    r.q("configuration", lambda: ctl.configuration is not None)
    c = ctl.configuration
    r.q("keys", lambda: c.keys)
    r.q("subkeys", lambda: c.solve.keys)
    r.q("get", lambda: (c.solve.models, c.solve.opt_mode, c.solver[0].heuristic))
    r.op("set", lambda: setattr(c.solve, "models", 2))
    r.q("len", lambda: (len(c.solver), c.solver.is_array, c.is_array))
    r.q("item", lambda: c.solver[0].keys is not None)
    r.q("description", lambda: c.solve.description("models"))
    r.q("root description", lambda: c.description("solve"))


@scenario
def stats(r):
    from clingo import Control

    ctl = Control(["0", "--stats"])
    ctl.add("{a;b}.")
    ctl.ground()

    def cb(s, t):
        r.op("set map", lambda: s.__setitem__("X", {"a": 1, "b": [1, 2.5, {"c": 3}], "d": 0}))
        x = r.q("get map", lambda: s["X"])
        r.op("set callable", lambda: x.__setitem__("a", lambda v: v + 1))
        r.op("set item", lambda: x["b"].__setitem__(0, 7))
        r.op("append", lambda: x["b"].append(4))
        r.op("iadd", lambda: x["b"].__iadd__([5]))
        r.op("extend", lambda: x["b"].extend([5]))
        r.op("update array", lambda: x["b"].update([1, 2]))
        r.q("len", lambda: len(x))
        r.q("contains", lambda: ("a" in x, "zz" in x, 1 in x))
        r.q("iter", lambda: list(x))
        r.q("keys", lambda: sorted(x.keys()))
        r.q("items", lambda: len(x.items()))
        r.q("values", lambda: len(x.values()))
        r.q("array len", lambda: len(x["b"]))
        r.q("array item", lambda: x["b"][1])
        r.q("value", lambda: x["a"])
        r.op("update", lambda: t.update({"Y": 1}))

    r.nested = True
    ctl.solve(on_statistics=cb)
    r.nested = False
    r.op("statistics", lambda: sorted(ctl.statistics))
    r.op("user step", lambda: str(ctl.statistics.get("user_step")))


@scenario
def backend(r):
    from clingo import Control, Function, Number
    from clingo.backend import HeuristicType, TheorySequenceType
    from clingo.core import TruthValue

    ctl = Control(["0"])
    be = r.op("backend", lambda: ctl.backend())
    if be is None:
        return
    if r.op("begin", lambda: be.__enter__()) is None:
        return
    with opened(be) as ob:
        a = r.op("add_atom", lambda: be.add_atom(Function("a"))) or 1
        b = r.op("add_atom anon", lambda: be.add_atom()) or 2
        r.op("add_rule", lambda: be.add_rule([a], [b], True))
        r.op("add_rule fact", lambda: be.add_rule([b]))
        r.op("add_weight_rule", lambda: be.add_weight_rule([a], 1, [(b, 2)]))
        r.op("add_minimize", lambda: be.add_minimize(1, [(a, 2)]))
        r.op("add_project", lambda: be.add_project([a]))
        r.op("add_external", lambda: be.add_external(a, TruthValue.True_))
        r.op("add_assume", lambda: be.add_assume([a]))
        r.op("add_heuristic", lambda: be.add_heuristic(a, HeuristicType.Level, 1, 2, [b]))
        r.op("add_acyc_edge", lambda: be.add_acyc_edge(0, 1, [a]))
        n = r.op("number", lambda: be.add_theory_term_number(1)) or 0
        s = r.op("string", lambda: be.add_theory_term_string("x")) or 0
        f = r.op("function", lambda: be.add_theory_term_function("f", [n, s])) or 0
        t = r.op("sequence", lambda: be.add_theory_term_sequence(TheorySequenceType.Tuple, [n])) or 0
        r.op("symbol", lambda: be.add_theory_term_symbol(Function("g", [Number(1)])))
        e = r.op("element", lambda: be.add_theory_element([t], [a]))
        if f and e is not None:
            r.op("theory_atom", lambda: be.add_theory_atom(f, [e]))
            r.op("theory_atom guard", lambda: be.add_theory_atom_with_guard(f, [e], "=", n))
        r.op("end", ob.close)
    r.op("solve", lambda: str(ctl.solve()))

    def ctxm():
        with ctl.backend() as x:
            x.add_rule([x.add_atom(Function("z"))])

    r.op("with backend", ctxm)
    r.op("solve 2", lambda: str(ctl.solve()))


PROG = """#theory t { u { - : 1, unary; + : 1, binary, left }; &p/1 : u, {<=, =}, u, any; &q/0 : u, any }.
{a; b; x(1..2)}. c :- a, not b. d :- 1 <= #count { X : x(X) } <= 1. #external e. #minimize { 1@2 : a; 2@1 : b }.
#project a. #show a/0. #show t(X) : x(X). #heuristic a : b. [1@2, level] #edge (1,2) : a. #edge (2,1) : b.
&p(1) { 1+X, f(a,-1) : x(X), a } <= (1,[2],{3}). &q { "s" }.
"""


@scenario
def theory(r):
    from clingo import Control

    ctl = Control()
    ctl.add(PROG)
    r.op("ground", lambda: ctl.ground())

    def term(t):
        n = str(t.type)
        return (n, str(t), t.number if n.endswith("Number") else None, t.name if n.endswith(("Symbol", "Function")) else None, [term(x) for x in t.arguments] if not n.endswith(("Number", "Symbol")) else None)

    def tup(*xs):
        return xs

    r.q("atoms", lambda: len(list(ctl.theory_atoms)))
    r.q("atom", lambda: sorted(str((str(t), t.literal != 0, term(t.term), None if t.guard is None else (t.guard[0], term(t.guard[1])))) for t in ctl.theory_atoms))
    r.q("elements", lambda: sorted(str([(str(e), [term(x) for x in e.terms], e.condition, e.condition_id != 0) for e in t.elements]) for t in ctl.theory_atoms))


class opened:
    """Leaves a manually entered object when the scenario is abandoned."""

    def __init__(self, x):
        self.x = x

    def __enter__(self):
        return self

    def close(self):
        x, self.x = self.x, None
        x.__exit__(None, None, None)
        return True

    def __exit__(self, *a):
        try:
            if self.x is not None:
                self.close()
        except RuntimeError:
            pass
        return False


OBS = "init_program begin_step rule weight_rule minimize project output_atom output_term external assume heuristic acyc_edge theory_term_number theory_term_string theory_term_compound theory_element theory_atom theory_atom_with_guard end_step".split()


def observer_object(r, names):
    from clingo.backend import Observer

    log = []

    def mk(n):
        f = r.cb(lambda *a: log.append((n, len(a))))
        return lambda self, *a: f(*a)

    return type("Obs", (Observer,), {n: mk(n) for n in names})(), log


@scenario
def observer(r):
    from clingo import Control, Function
    from clingo.core import TruthValue

    obs, log = observer_object(r, OBS)
    ctl = Control(["0"])
    r.op("register_observer", lambda: ctl.register_observer(obs))
    r.op("add", lambda: ctl.add(PROG))
    r.op("ground", lambda: ctl.ground())
    r.op("solve", lambda: str(ctl.solve([1])))
    r.op("assign_external", lambda: ctl.assign_external(Function("e"), True))
    r.op("solve 2", lambda: str(ctl.solve()))


@scenario
def observer_backend(r):
    """Observers called from within backend statements."""
    from clingo import Control, Function
    from clingo.backend import HeuristicType, TheorySequenceType
    from clingo.core import TruthValue

    obs, log = observer_object(r, OBS)
    ctl = Control(["0"])
    ctl.register_observer(obs)
    be = ctl.backend()
    if r.op("begin", lambda: be.__enter__()) is None:
        return
    with opened(be) as ob:
        a = r.op("add_atom", lambda: be.add_atom(Function("a"))) or 1
        b = r.op("add_atom anon", lambda: be.add_atom()) or 2
        r.op("add_rule", lambda: be.add_rule([a], [b], True))
        r.op("add_weight_rule", lambda: be.add_weight_rule([a], 1, [(b, 2)]))
        r.op("add_minimize", lambda: be.add_minimize(1, [(a, 2)]))
        r.op("add_project", lambda: be.add_project([a]))
        r.op("add_external", lambda: be.add_external(b, TruthValue.True_))
        r.op("add_assume", lambda: be.add_assume([a]))
        r.op("add_heuristic", lambda: be.add_heuristic(a, HeuristicType.Level, 1, 2, [b]))
        r.op("add_acyc_edge", lambda: be.add_acyc_edge(0, 1, [a]))
        n = r.op("number", lambda: be.add_theory_term_number(1)) or 0
        s = r.op("string", lambda: be.add_theory_term_string("x")) or 0
        f = r.op("function", lambda: be.add_theory_term_function("f", [n, s])) or 0
        t = r.op("sequence", lambda: be.add_theory_term_sequence(TheorySequenceType.Tuple, [n])) or 0
        e = r.op("element", lambda: be.add_theory_element([t], [a]))
        if f and e is not None:
            r.op("theory_atom", lambda: be.add_theory_atom(f, [e]))
            r.op("theory_atom guard", lambda: be.add_theory_atom_with_guard(f, [e], "=", n))
        r.op("end", ob.close)
    r.op("solve", lambda: str(ctl.solve()))
    r.op("assign_external", lambda: ctl.assign_external(b, False))
    r.op("add_project 2", lambda: ctl.add_project([a]))
    r.op("remove_project", lambda: ctl.remove_project())
    r.op("release_external", lambda: ctl.release_external(b))
    r.op("solve 2", lambda: str(ctl.solve()))
    c2 = Control()
    c2.register_observer(obs)
    r.op("load_aspif", lambda: c2.load_aspif([thefile()[1]]))


@scenario
def propagator(r):
    from clingo import Control, Function
    from clingo.propagator import Propagator, PropagatorCheckMode, PropagatorUndoMode

    log = []

    def init(init):
        sa = init.symbolic_atoms
        lits = [init.solver_literal(sa[Function(n)].literal) for n in "abc"]
        lits += [init.solver_literal(x.literal) for x in init.theory_atoms]
        for l in lits:
            init.add_watch(l)
            init.add_watch(-l, 0)
        init.remove_watch(lits[2])
        init.remove_watch(-lits[2], 0)
        x = init.add_literal()
        y = init.add_literal(False)
        init.freeze_literal(lits[0])
        init.add_clause([lits[0], lits[1]])
        init.add_weight_constraint(x, [(lits[0], 1), (lits[1], 1)], 2)
        init.add_minimize(lits[0], 1, 1)
        init.propagate()
        init.check_mode = PropagatorCheckMode.Both
        if not OLD:
            init.undo_mode = PropagatorUndoMode.Always
        assignment(init.assignment, lits)
        log.append((init.number_of_threads, init.check_mode))
        P.lits = lits

    def assignment(ass, lits):
        log.append([(ass.value(l), ass.is_true(l), ass.is_false(l), ass.is_free(l), ass.has_literal(l), ass.is_fixed(l)) for l in lits])
        log.append([ass.level(l) for l in lits if ass.value(l) is not None])
        log.append((len(ass), ass[0], list(ass)[-1], ass.decision_level, ass.root_level, ass.is_total, ass.has_conflict, ass.decision(ass.decision_level)))
        log.append((len(ass.trail), list(ass.trail), ass.trail[0], ass.trail.begin(0), ass.trail.end(0)))

    def propagate(ctl, changes):
        assignment(ctl.assignment, P.lits)
        l = P.lits
        if not ctl.add_clause([l[0], l[2]]):
            return
        if not ctl.add_nogood([-l[0], -l[2]], tag=True) or not ctl.propagate():
            return
        if len(log) < 12:
            x = ctl.add_literal()
            ctl.add_watch(x)
            ctl.remove_watch(x)
        log.append(ctl.thread_id)

    def check(ctl):
        assignment(ctl.assignment, P.lits)
        ctl.add_clause([P.lits[0], P.lits[2]], lock=True) and ctl.propagate()

    def undo(tid, ass, changes):
        log.append((tid, changes))

    def decide(tid, ass, fallback):
        assignment(ass, P.lits)
        return fallback

    P = type("P", (Propagator,), dict(
        init=(lambda f: lambda self, *a: f(*a))(r.cb(init)), propagate=(lambda f: lambda self, *a: f(*a))(r.cb(propagate)), check=(lambda f: lambda self, *a: f(*a))(r.cb(check)),
        undo=lambda self, *a: undo(*a), decide=(lambda f: lambda self, *a: f(*a))(r.cb(decide))))()
    ctl = Control(["0"])
    r.op("add", lambda: ctl.add("#theory t { u { - : 1, unary }; &p/0 : u, any }. {a;b;c}. &p{1} :- a."))
    r.op("ground", lambda: ctl.ground())
    r.op("register_propagator", lambda: ctl.register_propagator(P))
    r.op("solve", lambda: str(ctl.solve()))

    def syield():
        with ctl.solve(yield_=True) as h:
            for m in h:
                str(m)

    r.op("solve yield", syield)


@scenario
def ast_parse(r):
    from clingo import Control
    from clingo.ast import ProgramBuilder, parse_files, parse_string

    lp = thefile()[0]
    out = []
    r.op("parse_string", lambda: parse_string("a :- b. {c(1..X)} :- d(X).", r.cb(lambda s: out.append(s))))
    r.op("parse_files", lambda: parse_files([lp], r.cb(lambda s: out.append(s)), logger=lambda c, m: None))
    ctl = Control()
    r.op("parse_string control", lambda: parse_string("a :- b.", r.cb(lambda s: None), control=ctl))
    r.op("parse_files control", lambda: parse_files([lp], r.cb(lambda s: None), control=ctl, logger=lambda c, m: None))
    b = r.op("ProgramBuilder", lambda: ProgramBuilder(ctl))
    stm = list(out[:2])
    if b is not None:
        if r.op("enter", lambda: b.__enter__()) is not None:
            with opened(b) as ob:
                for s in stm:
                    r.op("add", lambda: b.add(s))
                r.op("exit", ob.close)

    def both():
        with ProgramBuilder(ctl) as bld:
            parse_string("x :- y. #external y.", r.cb(lambda s: bld.add(s)))

    r.op("builder parse", both)
    r.op("ground", lambda: ctl.ground())
    r.q("atoms", lambda: len(ctl.symbolic_atoms))


@scenario
def ast_cb(r):
    """Callbacks nested in each other."""
    from clingo import Control, ast

    ctl = Control()
    ctl.add("{a}.")
    ctl.ground()
    r.after(lambda: str(ctl.solve()))
    st = []
    ast.parse_string("a(1;2). b :- c(X).", st.append)
    r.op("nested parse", lambda: ast.parse_string("a. b.", r.cb(lambda s: ast.parse_string("x. y.", r.cb(lambda t: None)))))
    r.op("solve in parse", lambda: ast.parse_string("a. b.", r.cb(lambda s: ctl.solve(on_model=r.cb(lambda m: None)))))
    r.op("parse in solve", lambda: str(ctl.solve(on_model=r.cb(lambda m: ast.parse_string("x. y.", r.cb(lambda t: None))))))
    r.op("parse error", lambda: ast.parse_string("a. b.", r.cb(lambda s: None), logger=lambda c, m: None))

    class T(ast.Transformer):
        pass

    T.visit_Function = lambda self, n, *a: self.f(n, *a)
    t = T()
    t.f = r.cb(lambda n: n)
    r.op("transformer", lambda: [t(s) for s in st] and None)


def nodes():
    from clingo import Number, Function
    from clingo import ast

    p = ast.Position("<s>", 1, 1)
    L = ast.Location(p, p)
    return L, ast


@scenario
def ast_nodes(r):
    import copy
    from clingo import Function as SF, Number

    L, ast = nodes()
    t = r.q("SymbolicTerm", lambda: ast.SymbolicTerm(L, Number(1)))
    v = r.q("Variable", lambda: ast.Variable(L, "X"))
    if t is None or v is None:
        return
    f = r.q("Function", lambda: ast.Function(L, "f", [t, v], 0))
    po = r.q("Pool", lambda: ast.Pool(L, [t, v]))
    if f is None or po is None:
        return
    g = r.q("Function pool", lambda: ast.Function(L, "g", [po, f], 0))
    lit = r.q("Literal", lambda: ast.Literal(L, ast.Sign.NoSign, ast.SymbolicAtom(g)))
    if lit is None:
        return
    rule = r.q("Rule", lambda: ast.Rule(L, lit, [lit, ast.Literal(L, 1, ast.Comparison(t, [ast.Guard(0, v)]))]))
    if rule is None:
        return
    r.q("str", lambda: str(rule))
    r.q("repr", lambda: repr(rule))
    r.q("type", lambda: str(rule.ast_type))
    r.q("keys", lambda: rule.keys())
    r.q("child_keys", lambda: rule.child_keys)
    r.q("items", lambda: str(rule.items()))
    r.q("values", lambda: str(rule.values()))
    r.q("get", lambda: (str(rule.head), str(rule.body), str(rule.location)))
    r.q("get leaf", lambda: (f.name, f.external, str(t.symbol), v.name))
    r.q("copy", lambda: str(copy.copy(rule)))
    r.q("deepcopy", lambda: str(copy.deepcopy(rule)))
    r.q("update", lambda: str(rule.update(body=[lit])))
    r.q("unpool", lambda: [str(x) for x in rule.unpool()])
    r.q("unpool other", lambda: [str(x) for x in rule.unpool(True, False)])
    r.op("set string", lambda: setattr(v, "name", "Y"))
    r.op("set number", lambda: setattr(f, "external", 1))
    r.op("set symbol", lambda: setattr(t, "symbol", SF("z")))
    r.op("set location", lambda: setattr(t, "location", L))
    r.op("set ast", lambda: setattr(rule, "head", lit))
    r.op("set array", lambda: setattr(rule, "body", [lit, lit]))
    seq = rule.body
    r.op("seq set", lambda: seq.__setitem__(0, lit))
    r.op("seq insert", lambda: seq.insert(1, lit))
    r.op("seq append", lambda: seq.append(lit))
    r.op("seq del", lambda: seq.__delitem__(-1))
    r.q("seq get", lambda: str(seq[0]))
    r.q("seq iter", lambda: [str(x) for x in seq])
    r.q("seq len", lambda: len(seq))
    r.q("seq slice", lambda: str(seq[0:2]))
    r.op("seq clear", lambda: seq.clear())
    od = r.q("TheoryGuardDefinition", lambda: ast.TheoryGuardDefinition(["=", "<"], "t"))
    if od is not None:
        ss = od.operators
        r.q("strs", lambda: list(ss))
        r.op("str set", lambda: ss.__setitem__(0, ">"))
        r.op("str insert", lambda: ss.insert(0, ">="))
        r.op("str del", lambda: ss.__delitem__(0))
        r.q("str get", lambda: ss[0])
        r.q("str len", lambda: len(ss))
        r.op("set strs", lambda: setattr(od, "operators", ["a", "b"]))
        r.q("opt none", lambda: ast.TheoryAtomDefinition(L, 0, "p", 1, "t", None).guard)
        r.op("opt set", lambda: setattr(ast.TheoryAtomDefinition(L, 0, "p", 1, "t", od), "guard", None))

    class T(ast.Transformer):
        pass

    T.visit_Variable = lambda self, n: n.update(name="Z")
    r.q("transform", lambda: str(T()(lit)))


@scenario
def ast_build(r):
    """Every constructor once."""
    from clingo import Number

    L, ast = nodes()
    t = ast.SymbolicTerm(L, Number(1))
    fn = ast.Function(L, "f", [t], 0)
    lit = ast.Literal(L, 0, ast.SymbolicAtom(fn))
    cl = ast.ConditionalLiteral(L, lit, [lit])
    g = ast.Guard(0, t)
    ut = ast.TheoryUnparsedTerm(L, [ast.TheoryUnparsedTermElement(["-"], t)])
    tg = ast.TheoryGuardDefinition(["="], "t")
    od = ast.TheoryOperatorDefinition(L, "-", 1, 0)
    td = ast.TheoryTermDefinition(L, "t", [od])
    ad = ast.TheoryAtomDefinition(L, 0, "p", 1, "t", tg)
    for n, a in [
        ("Id", (L, "a")), ("Variable", (L, "X")), ("SymbolicTerm", (L, Number(1))), ("UnaryOperation", (L, 0, t)), ("BinaryOperation", (L, 3, t, t)), ("Interval", (L, t, t)),
        ("Function", (L, "f", [t], 0)), ("Pool", (L, [t, t])), ("BooleanConstant", (1,)), ("SymbolicAtom", (fn,)), ("Comparison", (t, [g])), ("Guard", (0, t)),
        ("ConditionalLiteral", (L, lit, [lit])), ("Aggregate", (L, g, [cl], None)), ("BodyAggregateElement", ([t], [lit])), ("BodyAggregate", (L, g, 0, [ast.BodyAggregateElement([t], [lit])], g)),
        ("HeadAggregateElement", ([t], cl)), ("HeadAggregate", (L, None, 0, [ast.HeadAggregateElement([t], cl)], g)), ("Disjunction", (L, [cl])), ("TheorySequence", (L, 0, [t])),
        ("TheoryFunction", (L, "f", [t])), ("TheoryUnparsedTermElement", (["-"], t)), ("TheoryUnparsedTerm", (L, [ast.TheoryUnparsedTermElement(["-"], t)])), ("TheoryGuard", ("=", ut)),
        ("TheoryAtomElement", ([ut], [lit])), ("TheoryAtom", (L, fn, [ast.TheoryAtomElement([ut], [lit])], ast.TheoryGuard("=", ut))), ("Literal", (L, 0, ast.BooleanConstant(0))),
        ("TheoryOperatorDefinition", (L, "-", 1, 0)), ("TheoryTermDefinition", (L, "t", [od])), ("TheoryGuardDefinition", (["="], "t")), ("TheoryAtomDefinition", (L, 0, "p", 1, "t", tg)),
        ("Rule", (L, lit, [lit])), ("Definition", (L, "n", t, 1)), ("ShowSignature", (L, "p", 1, 1)), ("ShowTerm", (L, t, [lit])), ("Minimize", (L, t, t, [t], [lit])), ("Script", (L, "lua", "x")),
        ("Program", (L, "p", [ast.Id(L, "a")])), ("External", (L, ast.SymbolicAtom(fn), [lit], t)), ("Edge", (L, t, t, [lit])), ("Heuristic", (L, ast.SymbolicAtom(fn), [lit], t, t, t)),
        ("ProjectAtom", (L, ast.SymbolicAtom(fn), [lit])), ("ProjectSignature", (L, "p", 1, 1)), ("Defined", (L, "p", 1, 1)), ("TheoryDefinition", (L, "t", [td], [ad])), ("Comment", (L, "% x", 0)),
    ]:
        x = r.q(n, lambda: getattr(ast, n)(*a))
        if x is not None:
            r.q("str " + n, lambda: str(x))
            r.q("repr " + n, lambda: repr(x))


_script = None


@scenario
def script(r):
    from clingo import Control, Number
    from clingo.script import Script, register_script

    global _script

    class S(Script):
        r = None

        def execute(self, location, code):
            self.ex(location, code)

        def call(self, location, name, arguments):
            return self.ca(location, name, arguments)

        def callable(self, name):
            return self.cl(name)

        def main(self, control):
            pass

    if _script is None:
        _script = S()
        register_script("lua", _script)
    _script.ex = r.scb(lambda l, c: None)
    _script.ca = r.scb(lambda l, n, a: [a[0], Number(5)])
    _script.cl = r.scb(lambda n: n == "f")
    ctl = Control()
    r.op("add", lambda: ctl.add("#script (lua) foo #end. a(@f(1))."))
    r.op("ground", lambda: ctl.ground())
    r.q("atoms", lambda: [str(x.symbol) for x in ctl.symbolic_atoms])


@scenario
def misc(r):
    """Registration of backends and of the Python script."""
    from clingo import Control
    from clingo.control import BackendType
    from clingo.script import enable_python

    ctl = Control(["0"])
    p = "reify%d.out" % os.getpid()
    r.op("register_backend", lambda: ctl.register_backend(BackendType.Reify, p, False, True, True))
    r.op("add", lambda: ctl.add("{a}."))
    r.op("ground", lambda: ctl.ground())
    r.op("solve", lambda: str(ctl.solve()))
    r.op("enable_python", lambda: enable_python())


# ---------------------------------------------------------------- runners
class Stop(Exception):
    pass


def lib_vpi():
    import ctypes

    v = ctypes.CDLL(None)
    v.vpi_calls.restype = v.vpi_hits.restype = v.vpi_balance.restype = ctypes.c_long
    v.vpi_failed.restype = v.vpi_bad.restype = v.vpi_log.restype = v.vpi_names.restype = ctypes.c_char_p
    v.vpi_arm.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p]
    return v


class Base:
    """Runs everything, recording the number of library calls and callback invocations of each operation."""

    def __init__(self):
        self.names = []
        self.calls = []
        self.cbs = []
        self.base = []
        self.ncb = 0
        self.probe = None
        self.nested = False
        self.vpi = lib_vpi()

    def op(self, name, fn):
        self.names.append(name)
        self.ncb = 0
        self.vpi.vpi_reset()
        x = fn()
        self.calls.append(self.vpi.vpi_calls())
        self.cbs.append(self.ncb)
        self.base.append(None)
        return x

    def q(self, name, fn):
        x = self.op(name, fn)
        self.base[-1] = repr(x) if not hasattr(x, "_rep") else "object"
        return x

    def cb(self, fn):
        def f(*a):
            self.ncb += 1
            return fn(*a)

        return f

    scb = cb

    def after(self, fn):
        self.probe = fn
        self.want = None

    def finish(self):
        if self.probe is not None:
            self.want = self.probe()


def balance(v):
    gc.collect()
    return [v.vpi_balance(k) for k in range(5)], (v.vpi_bad() or b"").decode()
