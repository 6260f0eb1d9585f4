"""E03: acquired and released library resources balance, whatever fails and whatever is raised."""
import gc
import itertools
import os

from vplib import B, Exe, Py
from checks import pyscen, E01

PID = "E03"
LEVEL = "fault_injection"
TECHNIQUE = "exhaustive enumeration of single faults, raising callbacks and owner histories with reference counting at the C API boundary"
NOTE = "After every scenario execution with one failed library call or one raising callback, and after every owner history up to the bound, all acquired controls, handles, syntax tree references, backend and builder sessions have been given back exactly once."
RULE = "one evaluation per execution (fault position, raising callback, owner history); distinct_nontrivial counts distinct positions and histories"
BUILD = ["engine", "eng/py/_clingo.so", "eng/drv/cppscen", "eng/drv/cppown", "lib/vpi.so"]
ASSUMPTIONS = ["every acquisition and release passes the C API, where it is counted", "garbage collection is run before counting in Python"]
VPI = [f"{B}/lib/vpi.so"]


def tasks(tier):
    return [Py("python", n, lib="eng", preload=VPI) for n in pyscen.SCEN] + [Py("py_owners", lib="eng", preload=VPI)] + [E01.cpp("balance", n) for n in E01.CPP] + [Exe([f"{B}/eng/drv/cppown", n], lib="eng", preload=VPI, name="c++ owners " + n) for n in ("node", "control", "handle", "session")]


class Fault(E01.Fault):
    """Like E01, but only for effects on the balance."""

    raise_at = 0
    exc = False

    def op(self, name, fn, query=False):
        self.i += 1
        if self.i != self.target:
            self.vpi.vpi_reset()
            if not self.nested:
                return fn()
            try:  # within a callback that must not fail
                return fn()
            except Exception:
                return None
        self.ncb = 0
        if self.raise_at:
            self.active = True
            self.ctx.journal("%s: operation %d (%s), callback %d raises" % (self.scen, self.i, name, self.raise_at))
            self.once(name, fn)
            raise pyscen.Stop()
        ks = range(1, self.rec.calls[self.i] + 1) if query else [self.k]
        for k in ks:
            self.ctx.journal("%s: operation %d (%s), call %d fails" % (self.scen, self.i, name, k))
            self.vpi.vpi_arm(k, 1, b"x", None)
            self.once(name, fn)
            self.vpi.vpi_reset()
        if not query and not self.nested:
            raise pyscen.Stop()
        return fn() if query else None

    def once(self, name, fn):
        self.ctx.execs += 1
        self.ctx.nontrivial += 1
        try:
            fn()
        except BaseException as e:
            e = None

    active = False

    def cb(self, fn):
        def f(*a):
            if self.active:
                self.ncb += 1
                if self.ncb == self.raise_at:
                    raise KeyError("x")
            return fn(*a)

        return f

    scb = cb


def _bal(ctx, v, key, what):
    b, bad = pyscen.balance(v)
    if any(b) or bad:
        ctx.fail(key, "%s: syntax trees %d, controls %d, handles %d, backends %d, builders %d %s" % ((what,) + tuple(b) + (bad,)))
    v.vpi_reset_balance()


def python(ctx, scen):
    f = pyscen.SCEN[scen]
    pyscen.thefile()
    f(pyscen.Base())
    rec = pyscen.Base()
    gc.collect()
    rec.vpi.vpi_reset_balance()
    f(rec)
    rec.probe = None
    _bal(ctx, rec.vpi, "python: %s: normal run" % scen, "balance")
    ctx.sample({"scenario": scen, "operations": len(rec.names), "calls": sum(rec.calls), "callbacks": sum(rec.cbs)})
    fz = ctx.tier == "quick"
    n = 0
    for i, name in enumerate(rec.names):
        ctx.state((scen, i))
        ks = [0] if rec.base[i] is not None else range(1, rec.calls[i] + 1)
        runs = [(k, 0) for k in ks] + [(0, j) for j in range(1, rec.cbs[i] + 1)]
        if fz and len(runs) > 400:
            runs = runs[:100] + [x for m, x in enumerate(runs[100:-50]) if m % 3 == 0] + runs[-50:]
        for k, j in runs:
            r = Fault(ctx, rec, scen, i, k, None)
            r.raise_at = j
            try:
                f(r)
            except pyscen.Stop:
                pass
            except Exception as e:
                ctx.check(r.i >= i, "python: %s fails" % scen, repr(e))  # operations after the failed one may fail
            del r
            ctx.transitions += 1
            _bal(ctx, rec.vpi, "python: %s: %s" % (scen, name), ctx.cur)


def py_owners(ctx):
    """All short histories over the owners of the Python API."""
    import copy

    from clingo import Control, ast, Number

    v = pyscen.lib_vpi()
    L, _ = pyscen.nodes()

    def mk():
        return ast.SymbolicTerm(L, Number(1))

    # ---- syntax trees: three slots
    def ops(n):
        r = []
        for i in range(n):
            r += [("new", i), ("rule", i), ("drop", i), ("deep", i), ("str", i)]
            for j in range(n):
                r += [("alias", i, j), ("copy", i, j), ("put", i, j), ("get", i, j), ("update", i, j), ("append", i, j), ("unpool", i, j), ("cmp", i, j)]
        return r

    def do(s, o):
        k, i = o[0], o[1]
        if k == "new":
            s[i] = mk()
        elif k == "rule":
            s[i] = ast.Pool(L, [mk(), mk()])
        elif k == "drop":
            s[i] = None
        elif s[o[-1]] is None:
            return
        elif k == "deep":
            s[i] = copy.deepcopy(s[i])
        elif k == "str":
            str(s[i])
            repr(s[i])
            hash(s[i])
        elif k == "alias":
            s[i] = s[o[2]]
        elif k == "copy":
            s[i] = copy.copy(s[o[2]])
        elif k == "cmp":
            s[i] == s[o[2]], s[i] is not None and s[i] < s[o[2]]
        elif k == "unpool":
            s[i] = s[o[2]].unpool()[-1]
        elif k == "get":
            x = s[o[2]]
            s[i] = x.arguments[-1] if x.ast_type == ast.ASTType.Pool and len(x.arguments) else x
        elif s[i] is None or s[i].ast_type != ast.ASTType.Pool or i == o[2]:
            return
        elif k == "put":
            s[i].arguments = [s[o[2]], *s[i].arguments]
        elif k == "update":
            s[i] = s[i].update(arguments=[s[o[2]], s[o[2]]])
        elif k == "append":
            a = s[i].arguments
            a.append(s[o[2]])
            a.insert(0, a[-1])
            del a[1]
            a[0] = a[0]

    gc.collect()
    gc.disable()
    v.vpi_reset_balance()
    O = ops(2)
    depth = 3 if ctx.tier == "quick" else 4
    start = [("new", 0), ("rule", 1)]
    for h in itertools.product(O, repeat=depth):
        if h[0][0] in ("str", "cmp"):
            continue
        ctx.journal("syntax trees %s" % (h,))
        s = [None, None]
        for o in start:
            do(s, o)
        cyc = False
        for o in h:
            if o[0] in ("put", "append") and o[1] != o[2]:
                # never build cycles: the library counts references
                if cyc:
                    continue
            if o[0] in ("put", "append", "update", "get", "alias"):
                cyc = True
            do(s, o)
        s = None
        ctx.execs += 1
        ctx.nontrivial += 1
        b = [v.vpi_balance(k) for k in range(5)]
        if any(b) or v.vpi_bad():
            gc.collect()
            _bal(ctx, v, "python: history of syntax trees", str(h))
    gc.enable()
    # ---- controls, handles, backends, builders
    K = ["new", "drop", "solve", "solvey", "solvea", "partial", "abandon", "exc", "backend", "backendexc", "builder", "builderexc", "bases", "nested", "interrupt", "ast"]
    for h in itertools.product(K, repeat=depth):
        ctx.journal("controls %s" % (h,))
        c = Control(["0"])
        c.add("{a;b}.")
        c.ground()
        for o in h:
            if o == "new":
                c = Control(["0"])
                c.add("{a}.")
                c.ground()
            elif o == "drop":
                c = None
            if c is None:
                continue
            if o == "solve":
                c.solve()
            elif o == "solvey":
                with c.solve(yield_=True) as x:
                    for m in x:
                        pass
            elif o == "solvea":
                with c.solve(async_=True) as x:
                    x.wait()
            elif o == "partial":
                with c.solve(yield_=True, async_=True) as x:
                    for m in x:
                        break
            elif o == "abandon":
                with c.solve(yield_=True) as x:
                    it = iter(x)
                    next(it, None)
            elif o == "exc":
                try:
                    with c.solve(yield_=True, on_model=lambda m: 1 / 0) as x:
                        for m in x:
                            pass
                except ZeroDivisionError:
                    pass
            elif o == "backend":
                with c.backend() as b:
                    b.add_rule([b.add_atom()])
            elif o == "backendexc":
                try:
                    with c.backend() as b:
                        1 / 0
                except ZeroDivisionError:
                    pass
            elif o == "builder":
                with ast.ProgramBuilder(c) as b:
                    ast.parse_string("x.", b.add)
            elif o == "builderexc":
                try:
                    with ast.ProgramBuilder(c) as b:
                        b.add(mk())
                except RuntimeError:
                    pass
            elif o == "bases":
                # errors that are no exceptions in the narrow sense leave the scopes as well
                for e in (KeyboardInterrupt, SystemExit, GeneratorExit):
                    try:
                        with c.solve(yield_=True) as x:
                            for m in x:
                                raise e()
                    except e:
                        pass
                    try:
                        with c.backend() as b:
                            b.add_atom()
                            raise e()
                    except e:
                        pass
                    try:
                        with ast.ProgramBuilder(c) as b:
                            raise e()
                    except e:
                        pass
            elif o == "nested":
                with c.solve(yield_=True) as x:
                    for m in x:
                        d = Control()
                        d.add("a.")
                        d.ground()
                        d.solve()
            elif o == "interrupt":
                c.interrupt()
            elif o == "ast":
                ast.parse_string("a :- b.", lambda s: None, control=c)
        c = x = b = it = m = d = None
        ctx.execs += 1
        ctx.nontrivial += 1
        b = [v.vpi_balance(k) for k in range(5)]
        if any(b) or v.vpi_bad():
            _bal(ctx, v, "python: history of controls", str(h))
