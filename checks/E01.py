"""E01: every library call of every operation fails once; the failure must surface."""
import os

from vplib import B, Exe, Py
from checks import pymis, pyscen

PID = "E01"
LEVEL = "fault_injection"
TECHNIQUE = "exhaustive single fault enumeration on the real bindings through an interposed C API"
NOTE = "Every failable library call made by every operation of the scenario catalogue fails once, with each error code, with and without a message. Every ordered pair of a catalogue of 240 invalid Python calls raises exceptions and leaves the objects and the control as they were. Only one failure per execution."
RULE = "one evaluation per (scenario, operation, call, error kind); distinct_nontrivial counts distinct failed call sites (scenario, operation, call index)"
BUILD = ["engine", "eng/py/_clingo.so", "eng/drv/cppscen", "lib/vpi.so"]
ASSUMPTIONS = ["the library reports failures through its boolean results and error code as documented in clingo.h", "single failures only"]
VPI = [f"{B}/lib/vpi.so"]
# code, message
FIRST = (4, b"unknown y")
KINDS = [FIRST, (1, b"injected failure"), (2, b"logic x"), (3, b"no mem"), (1, None), (3, None)]


CPP = "symbols control context solve conf stats backend observer observer_backend theory propagator propagator_plain ast ast_nodes".split()


def cpp(mode, n, lib="eng"):
    return Exe([f"{B}/{lib}/drv/cppscen", mode, n, "quiet"], lib=lib, preload=VPI, name="c++ %s %s" % (mode, n))


def tasks(tier):
    return (
        [Py("python", "propagator", p, 6, lib="eng", preload=VPI) for p in range(6)]
        + [Py("python", n, lib="eng", preload=VPI) for n in pyscen.SCEN if n != "propagator"]
        + [cpp("fault", n) for n in CPP]
        + [Py("misuse", n, lib="eng", preload=VPI) for n in pymis.T]
    )


class Fault(pyscen.Base):
    def __init__(self, ctx, rec, scen, target, k, kind):
        super().__init__()
        self.ctx, self.rec, self.scen, self.target, self.k, self.kind = ctx, rec, scen, target, k, kind
        self.i = -1
        self.done = False

    def op(self, name, fn, query=False):
        self.i += 1
        if self.i != self.target:
            if not self.done:
                self.vpi.vpi_reset()
                return fn()
            try:  # the operation before failed: later ones may fail as well, but must not crash
                return fn()
            except Exception:
                return None
        self.done = True
        if query:  # may fail any number of times without consequences
            for k in range(1, self.rec.calls[self.i] + 1):
                for kind in KINDS:
                    self.k, self.kind = k, kind
                    self.once(name, fn, True)
            return fn()
        self.once(name, fn, False)
        if self.kind is not FIRST and not self.nested:
            raise pyscen.Stop()
        return None

    def once(self, name, fn, query):
        self.ctx.journal("%s: operation %d (%s), call %d, error %s" % (self.scen, self.i, name, self.k, self.kind))
        self.ctx.execs += 1
        if self.kind is FIRST:
            self.ctx.nontrivial += 1
            self.ctx.state((self.scen, self.i, self.k))
        code, msg = self.kind
        self.vpi.vpi_arm(self.k, code, msg, None)
        try:
            fn()
        except MemoryError as e:
            got = ("MemoryError", str(e))
        except RuntimeError as e:
            got = ("RuntimeError", str(e))
        except BaseException as e:
            got = (type(e).__name__, str(e))
        else:
            got = None
        hits, name_ = self.vpi.vpi_hits(), (self.vpi.vpi_failed() or b"").decode()
        self.vpi.vpi_reset()
        if not hits:
            self.ctx.fail("python: %s is not deterministic" % name, "call %d was not made" % self.k)
            return
        key = "python: %s: failure of %s" % (name, name_)
        want = "MemoryError" if code == 3 else "RuntimeError"
        if got is None:
            self.ctx.fail(key + " is not reported", "error %s" % (self.kind,))
        elif got[0] != want:
            self.ctx.fail(key + " raises the wrong exception", "error %s gives %s, expected %s" % (self.kind, got, want))
        elif msg is not None and msg.decode() not in got[1]:
            self.ctx.fail(key + " loses the message", "error %s gives %s" % (self.kind, got))
        if query:
            try:
                x = fn()
            except Exception as e:
                self.ctx.fail(key + " breaks the object", "repeating it gives %r" % e)
                return
            y = repr(x) if not hasattr(x, "_rep") else "object"
            if self.rec.base[self.i] != y:
                self.ctx.fail(key + " changes the object", "repeating it gives %s, before %s" % (y, self.rec.base[self.i]))

    def q(self, name, fn):
        return self.op(name, fn, True)

    def finish(self):
        pass


def python(ctx, scen, part=0, parts=1):
    f = pyscen.SCEN[scen]
    pyscen.thefile()
    f(pyscen.Base())  # warm up caches
    rec = pyscen.Base()
    f(rec)
    ctx.sample({"scenario": scen, "operations": len(rec.names), "calls": sum(rec.calls)})
    for i, n in enumerate(rec.names):
        if rec.base[i] is not None:
            if i % parts != part:
                continue
            f(Fault(ctx, rec, scen, i, 1, FIRST))
            continue
        for k in range(1, rec.calls[i] + 1):
            if (i + k) % parts != part:
                continue
            for kind in KINDS if ctx.tier == "thorough" or k == 1 else (FIRST, KINDS[3]):
                try:
                    f(Fault(ctx, rec, scen, i, k, kind))
                except pyscen.Stop:
                    pass


def misuse(ctx, cat):
    """Every ordered pair of invalid calls on one object of a category."""
    v = pyscen.lib_vpi()
    v.vpi_reset_balance()
    pymis.explore(ctx, cat)
    n, bad = pyscen.balance(v)
    ctx.check(n[1:3] == [0, 0] and not bad, "python: resources are not balanced after invalid calls: " + cat, "%s %s" % (n, bad))
    ctx.sample({"category": cat, "calls": len(pymis.T[cat])})
