"""E02: every callback invocation of every operation raises once; the very exception must arrive at the caller."""
import os

from vplib import B, Exe, Py
from checks import pyscen, E01

PID = "E02"
LEVEL = "fault_injection"
TECHNIQUE = "exhaustive enumeration of raising callback invocations (single, and all later ones too) on the real bindings"
NOTE = "Every invocation of every user callback in the scenario catalogue raises, alone and together with all later invocations, for several exception types; the operation must end with exactly the first exception."
RULE = "one evaluation per (scenario, operation, callback invocation, exception type, single or repeated); distinct_nontrivial counts distinct (scenario, operation, invocation)"
BUILD = ["engine", "eng/py/_clingo.so", "sys/py/_clingo.so", "eng/drv/cppscen", "lib/vpi.so"]
ASSUMPTIONS = ["callbacks that only notify and have no way to report an error (undo, finish, unsat and statistics events) are not made to raise", "script callbacks are reported through the traceback text of the embedded interpreter"]
VPI = [f"{B}/lib/vpi.so"]
SC = ["context", "solve", "observer", "observer_backend", "propagator", "ast_parse", "ast_cb", "script"]
LIB = {"observer_backend": ("eng",)}


def tasks(tier):
    return [Py("python", n, lib=l, preload=VPI) for n in SC for l in LIB.get(n, ("eng", "sys"))] + [E01.cpp("exc", n) for n in E01.CPP]


class Two(Exception):
    """Cannot be rebuilt from its message."""

    def __init__(self, a, b):
        super().__init__(a)
        self.b = b


class Odd(BaseException):
    pass


class Falsy(Exception):
    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = Exception.__hash__


class Mute(Exception):
    """Its message cannot be computed."""

    def __str__(self):
        raise ValueError("mute")


def stale(exc):
    """The callback has handled a failing library call before raising."""
    from clingo._internal import _lib

    _lib.clingo_set_error(_lib.clingo_error_runtime, b"stale")
    return exc


MAKE = [lambda: Two("two", 1), lambda: KeyboardInterrupt("ki"), lambda: KeyError(3), lambda: Odd(), lambda: Falsy(""), lambda: RuntimeError("\u00e9\n"), lambda: MemoryError(), lambda: SystemExit(3), lambda: stale(Mute()), lambda: stale(ValueError("\ud800")), lambda: stale(Two("", 2))]


class Raise(pyscen.Base):
    def __init__(self, ctx, rec, scen, target, j, mk, later, chain=False):
        super().__init__()
        self.chain = chain
        self.ctx, self.rec, self.scen, self.target, self.j, self.mk, self.later = ctx, rec, scen, target, j, mk, later
        self.i = -1
        self.active = False
        self.exc = None
        self.kind = ""

    def op(self, name, fn):
        self.i += 1
        if self.chain and self.i > self.target and self.i < len(self.rec.cbs) and self.rec.cbs[self.i]:
            return self.again(name, fn)
        if self.i != self.target:
            return fn()
        self.ctx.journal("%s: operation %d (%s), callback invocation %d raises %s%s" % (self.scen, self.i, name, self.j, type(self.mk()).__name__, ", later ones too" if self.later else ""))
        self.ctx.execs += 1
        self.ncb = 0
        self.active = True
        key = "python: %s: %s" % (self.scen, name)
        try:
            fn()
        except BaseException as e:
            self.active = False
            if self.exc is None:
                self.ctx.fail(key + " fails by itself", repr(e))
            elif self.kind == "script":
                if not isinstance(e, RuntimeError) or type(self.exc).__name__ not in str(e):
                    self.ctx.fail(key + ": script exception is not described", "%r" % e)
            elif e is not self.exc and name == "async" and isinstance(e, RuntimeError):
                pass  # raised in the background: documented to be reported as an error
            elif e is not self.exc:
                self.ctx.fail(key + ": another exception arrives", "%s: raised %r, got %r" % (self.ctx.cur, self.exc, e))
            else:
                tb, n = e.__traceback__, 0
                names = set()
                while tb is not None:
                    names.add(tb.tb_frame.f_code.co_name)
                    tb = tb.tb_next
                self.ctx.check("raiser" in names, key + ": traceback lost", str(names))
        else:
            self.active = False
            if self.exc is None:
                self.ctx.fail(key + " is not deterministic", "callback invocation %d was not made" % self.j)
            else:
                self.ctx.fail(key + ": exception is swallowed", "%s: %r" % (self.ctx.cur, self.exc))
        if self.chain:
            return None
        if self.probe is not None:
            got = self.probe()
            self.ctx.eq(key + ": control changed by an exception", got, self.rec.want, "probe")
        try:  # nothing of the stored exception may remain
            fn()
        except BaseException as e:
            if e is self.exc:
                self.ctx.fail(key + ": exception is reported again", repr(e))
        raise pyscen.Stop()

    q = op

    def again(self, name, fn):
        """An earlier operation failed with another exception: this one has to report its own."""
        self.mk = (lambda: ValueError("later")) if isinstance(self.exc, Two) else MAKE[0]
        self.exc, self.ncb, self.j, self.kind, self.active = None, 0, 1, "", True
        got = None
        try:
            fn()
        except BaseException as e:
            got = e
        self.active = False
        self.ctx.transitions += 1
        if self.exc is None or got is self.exc:
            return
        if isinstance(got, RuntimeError) and (name == "async" or self.kind == "script" and type(self.exc).__name__ in str(got)):
            return
        self.ctx.fail("python: %s: %s: wrong exception after an earlier one" % (self.scen, name), "raised %r, got %r" % (self.exc, got))

    def raiser(self):
        e = self.mk()
        if self.exc is None:
            self.exc = e
        raise e

    def cb(self, fn, kind=""):
        def f(*a):
            if self.active:
                self.ncb += 1
                if self.ncb == self.j or (self.later and self.ncb > self.j):
                    if self.ncb == self.j:
                        self.kind = kind
                    self.raiser()
            return fn(*a)

        return f

    def scb(self, fn):
        return self.cb(fn, "script")


def python(ctx, scen):
    f = pyscen.SCEN[scen]
    pyscen.thefile()
    f(pyscen.Base())
    rec = pyscen.Base()
    f(rec)
    rec.finish()
    ctx.sample({"scenario": scen, "operations": len(rec.names), "callbacks": sum(rec.cbs)})
    for i in range(len(rec.names)):
        for j in range(1, rec.cbs[i] + 1):
            ctx.state((scen, i, j))
            ctx.nontrivial += 1
            for n, mk in enumerate(MAKE):
                if ctx.tier == "quick" and n > 1 and j > 3 and (i + j + n) % len(MAKE):
                    continue
                for later in (False, True):
                    try:
                        f(Raise(ctx, rec, scen, i, j, mk, later))
                    except pyscen.Stop:
                        pass
                    ctx.transitions += 1
            if j <= 3 or ctx.tier != "quick":
                r = Raise(ctx, rec, scen, i, j, MAKE[0], False, True)
                try:
                    f(r)
                except Exception as e:
                    if r.i <= i:
                        ctx.fail("python: %s fails by itself" % scen, repr(e))
