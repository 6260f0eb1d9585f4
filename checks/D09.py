"""D09: the theory wrapper forwards every call and answer unchanged."""
import contextlib
import gc
import io
import itertools
import os

from vplib import Py

PID = "D09"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of assignment tables and of operation sequences over theory objects backed by a recording C theory, with every call failing in turn, against a reference of the calls and answers"
NOTE = "All tables of values of a theory with up to three symbols and two threads over integers, doubles and symbols including the extreme ones are read through every method; all sequences of up to four (thorough: five) operations on two theories and two controls are compared with the calls the C theory must receive and the answers it gives; each call of each operation fails in turn with each error code; callbacks of rewrite_ast raise at every position; models, statistics and options of applications on two libraries."
RULE = ""
BUILD = ["sys/py/_clingo.so", "eng/py/_clingo.so", "sys/py/_vpthy.so", "eng/py/_vpthy.so"]
ASSUMPTIONS = ["the C theory answers as specified in the documentation of clingo.theory"]

MIN, MAX = -(2**31), 2**31 - 1


def env():
    import _vpthy
    import clingo
    from clingo.theory import Theory

    return clingo, _vpthy.lib, _vpthy.ffi, Theory


def rep(thy):
    """The pointer to the C theory, under whatever name it is kept."""
    import _vpthy

    ty = _vpthy.ffi.typeof("vpt_theory_t*")
    return next(x for x in vars(thy).values() if isinstance(x, _vpthy.ffi.CData) and _vpthy.ffi.typeof(x) is ty)


def addr(x):
    import clingo._internal as i

    return int(i._ffi.cast("uintptr_t", x))


def log(lib, ffi):
    return [x for x in ffi.string(lib.vpt_take_log()).decode().split("|") if x]


def values(clingo):
    """Values with their type numbers."""
    f = clingo.Function
    return [None, (0, 0), (0, MIN), (0, MAX), (1, 0.5), (1, -0.0), (1, float("inf")), (1, 5e-324), (2, f("a", [])), (2, clingo.Number(MIN)), (2, clingo.String("x")), (2, clingo.Infimum)]


def put(lib, t, th, i, v):
    ty, x, d, s = -1, 0, 0.0, 0
    if v is not None:
        ty = v[0]
        if ty == 0:
            x = v[1]
        elif ty == 1:
            d = v[1]
        else:
            s = v[1]._rep
    lib.vpt_set_value(t, th, i, ty, x, d, s)


def show(v):
    return "%s:%r" % (type(v).__name__, v)


def tables(ctx, lo, n):
    """Every table of values."""
    clingo, lib, ffi, Theory = env()
    vals = values(clingo)
    if ctx.tier == "quick":
        vals = vals[:9:2] + vals[1:4:2] + vals[9:10]
    syms = [clingo.Function("x", []), clingo.Function("x", [clingo.Number(0)], False), clingo.String("x")]
    thy = Theory("vpt", lib, ffi)
    t = rep(thy)
    for k, row in enumerate(itertools.product(vals, repeat=3)):
        if k % n != lo:
            continue
        for size in (3,) if k % 7 else (0, 1, 2, 3):
            what = "%s of size %d" % (row, size)
            ctx.journal("table " + what)
            ctx.execs += 1
            for i, s in enumerate(syms):
                lib.vpt_set_symbol(t, size, i, s._rep)
            other = tuple(reversed(row[1:])) + (vals[1],)
            rows = {0: row, 1: other, 2: (None, None, None)}
            for th, r in rows.items():
                for i in range(3):
                    put(lib, t, th, i, r[i])
            for th, r in rows.items():
                want = [(str(syms[i]), show(r[i][1])) for i in range(size) if r[i] is not None]
                lib.vpt_take_log()
                got = [(str(s), show(v)) for s, v in thy.assignment(th)]
                ctx.eq("assignment", got, want, what + " thread %d" % th)
                calls = [x for x in log(lib, ffi) if x.startswith(("begin", "next"))]
                ctx.eq("cursor calls", calls, ["begin 1 %d" % th] + ["next 1 %d" % th] * (len(want) + 1), what)
                for i in range(size):
                    ctx.transitions += 1
                    ctx.eq("has_value", thy.has_value(th, i), r[i] is not None, what + " %d %d" % (th, i))
                    if r[i] is not None:
                        ctx.eq("get_value", show(thy.get_value(th, i)), show(r[i][1]), what + " %d %d" % (th, i))
            for i, s in enumerate(syms):
                ctx.eq("lookup", thy.lookup_symbol(s), i if i < size else None, what + " %s" % s)
                ctx.eq("get_symbol", thy.get_symbol(i), s, what)
            ctx.eq("lookup of other symbol", thy.lookup_symbol(clingo.Function("y", [])), None, what)
            ctx.eq("lookup of other sign", thy.lookup_symbol(clingo.Function("x", [clingo.Number(0)])), None, what)
            # two iterations at the same time in every interleaving
            if k % 7 == 0:
                n0 = [str(s) for s, _ in thy.assignment(0)]
                n1 = [str(s) for s, _ in thy.assignment(1)]
                for mask in itertools.product((0, 1), repeat=len(n0) + len(n1)):
                    if mask.count(0) != len(n0):
                        continue
                    its, out = [thy.assignment(0), thy.assignment(1)], [[], []]
                    for b in mask:
                        out[b].append(str(next(its[b])[0]))
                    ctx.eq("interleaved iterations", out, [n0, n1], what)
                    ctx.execs += 1
            ctx.state(what)
    ctx.eq("version", thy.version(), (3, 14, 159), "version")
    ctx.nontrivial += 1


STMS = ["a :- b, not c.", "{x(X) : y(X)} = 1.", "#show p/1.", "&t { u : v } >= w."]


class World:
    def __init__(self):
        self.clingo, self.lib, self.ffi, self.Theory = env()
        self.lib.vpt_reset()
        self.ctls = [self.clingo.Control(["--warn=none", "0"]) for _ in range(2)]
        self.thy = {}
        self.rew = {}
        self.ids = 0
        self.dead = set()
        self.given = False
        self.regs = [[], []]
        self.state = ["new", "new"]

    def log(self):
        """The calls, but for (single) destructions of theories given up."""
        out = []
        for x in log(self.lib, self.ffi):
            n = int(x[8:]) if x.startswith("destroy ") else 0
            if n in self.dead:
                self.dead.remove(n)
            else:
                out.append(x)
        return out

    def stm(self, text):
        from clingo import ast

        out = []
        ast.parse_string(text, out.append)
        return out[-1]


OPS = [("new", i) for i in (1, 2)] + [("conf", i) for i in (1, 2)] + [("reg", i, c) for i in (1, 2) for c in (0, 1)] + [("rew", 1, k) for k in (0, 1, 2)] + [("rew", 2, 2), ("prep", 1, 0), ("prep", 2, 1), ("solve", 1, 0), ("solve", 2, 1), ("del", 1), ("val", 1)]


def apply(ctx, w, op, what):
    """Perform one operation and compare with the calls expected; False if not enabled."""
    name, i = op[0], op[1]
    thy = w.thy.get(i)
    if name == "new":
        if thy is not None or w.ids >= 2:
            return False
        w.thy[i] = w.Theory("vpt", w.lib, w.ffi)
        w.ids += 1
        w.rew[i] = w.ids
        ctx.eq("create", w.log(), ["create 0 %d" % w.ids], what)
        if w.given:
            # only the theory last created may still be referenced by the rewriting callback
            gc.collect()
            ctx.eq("create", w.log(), [], what)
            ctx.eq("theories given up are destroyed", sorted(w.dead), [], what)
        return True
    if thy is None:
        return False
    n = w.rew[i]
    if name == "conf":
        for key, value in (("key", "value"), ("", ""), ("\u00e4-b", "1,2 3\n"), ("k" * 300, "v" * 300)):
            ctx.eq("configure answer", thy.configure(key, value), None, what)
            ctx.eq("configure", w.log(), ["configure %d %s %s" % (n, key.encode().hex(), value.encode().hex())], what)
    elif name == "reg":
        c = op[2]
        if w.state[c] != "new":
            return False
        thy.register(w.ctls[c])
        w.regs[c].append(n)
        ctx.eq("register", w.log(), ["register %d %d" % (n, addr(w.ctls[c]._rep))], what)
    elif name == "rew":
        k = op[2]
        w.lib.vpt_rewrites(rep(thy), k)
        for text in STMS:
            stm = w.stm(text)
            out = []
            ctx.eq("rewrite answer", thy.rewrite_ast(stm, out.append), None, what)
            ctx.eq("rewrite", w.log(), ["rewrite_ast %d%s" % (n, " next" * max(0, k - 1))], what)
            gc.collect()
            ctx.eq("rewritten statements", [str(x) for x in out], [str(stm)] * k, what)
            ctx.check(all(x == stm and x.location == stm.location for x in out), "rewritten statements are equal", what)
    elif name == "prep":
        c = op[2]
        if w.state[c] == "new":
            w.ctls[c].add("base", [], "{p}.")
            w.ctls[c].ground([("base", [])])
            w.state[c] = "ground"
        thy.prepare(w.ctls[c])
        ctx.eq("prepare", w.log(), ["prepare %d %d %d" % (n, addr(w.ctls[c]._rep), 1 + len(set(w.regs[c])))], what)
    elif name == "solve":
        c = op[2]
        if w.state[c] != "ground":
            return False
        seen = []

        def on_model(m):
            thy.on_model(m)
            seen.append(sorted(str(s) for s in m.symbols(theory=True)))

        ans = []
        w.ctls[c].solve(on_model=on_model, on_statistics=lambda s, a: ans.append(thy.on_statistics(s, a)))
        ctx.eq("models", seen, [["thy%d(%d)" % (n, j + 1)] for j in range(2)], what)
        ctx.eq("on_model", w.log(), ["on_model %d %d" % (n, j + 1) for j in range(2)] + ["on_statistics %d" % n], what)
        st = w.ctls[c].statistics
        ctx.eq("statistics", (st["user_step"]["vpt%d" % n], st["user_accu"]["vpt%d" % n]), (1.0, 2.0), what)
        for r in set(w.regs[c]):
            ctx.check(w.ctls[c].symbolic_atoms[w.clingo.Function("reg", [w.clingo.Number(r)])].is_fact, "registration reaches the control", what)
    elif name == "val":
        ctx.eq("validate answer", thy.validate_options(), None, what)
        ctx.eq("validate", w.log(), ["validate_options %d 0" % n], what)
    elif name == "del":
        # (a theory may live longer than its Python object but never be destroyed twice)
        w.dead.add(n)
        w.given = True
        del thy
        w.thy.pop(i)
        gc.collect()
        ctx.eq("destroyed at most once", w.log(), [], what)
        w.ids = max(w.ids, 2)
    return True


def seqs(ctx, first):
    """Every sequence of operations."""
    depth = 4 if ctx.tier == "quick" else 5
    ops = OPS

    def run(seq):
        w = World()
        what = ""
        for op in seq:
            what += " " + ",".join(map(str, op))
            ctx.transitions += 1
            if not apply(ctx, w, op, what):
                return False
        # at the end other theories are still alive
        for i, t in w.thy.items():
            ctx.check(w.lib.vpt_alive(rep(t)) == 1, "theory is alive while referenced", what)
        ctx.execs += 1
        ctx.state(what)
        return True

    def rec(seq):
        ctx.journal("sequence %s" % (seq,))
        if not run(seq) or len(seq) == depth + 1:
            return
        for op in ops:
            rec(seq + [op])

    rec([("new", 1)] + ([first] if first else []))
    ctx.nontrivial += 1


class Boom(Exception):
    pass


def faults(ctx):
    """Each call fails with each code; callbacks raise at each position."""
    clingo, lib, ffi, Theory = env()
    import clingo._internal as ci
    from clingo import ast

    codes = {1: RuntimeError, 2: RuntimeError, 3: MemoryError, 4: RuntimeError}

    def stm():
        out = []
        ast.parse_string("a:-b.", out.append)
        return out[-1]

    class Opts:
        pass

    def solve(thy, ctl, fn):
        seen = []

        def om(m):
            try:
                thy.on_model(m)
            except Exception as e:
                seen.append(e)

        def st(s, a):
            try:
                thy.on_statistics(s, a)
            except Exception as e:
                seen.append(e)

        ctl.solve(on_model=om, on_statistics=st)
        if seen:
            raise seen[0]

    def mk():
        ctl = clingo.Control(["--warn=none"])
        ctl.add("base", [], "{p}.")
        ctl.ground([("base", [])])
        return ctl

    ops = {
        "configure": lambda thy, ctl: thy.configure("a", "b"),
        "register": lambda thy, ctl: thy.register(ctl),
        "prepare": lambda thy, ctl: thy.prepare(ctl),
        "rewrite_ast": lambda thy, ctl: thy.rewrite_ast(stm(), lambda x: None),
        "validate_options": lambda thy, ctl: thy.validate_options(),
        "on_model": lambda thy, ctl: solve(thy, ctl, None),
        "on_statistics": lambda thy, ctl: solve(thy, ctl, None),
    }
    for (name, op), (code, cls) in itertools.product(ops.items(), codes.items()):
        what = "%s fails with %d" % (name, code)
        ctx.journal(what)
        lib.vpt_reset()
        thy, ctl = Theory("vpt", lib, ffi), mk()
        for n in range(3):
            lib.vpt_reset()
            lib.vpt_plan(n, code)
            ctx.execs += 1
            try:
                op(thy, ctl)
                got = None
            except BaseException as e:
                got = (type(e), str(e))
            lib.vpt_plan(-1, 0)
            calls = log(lib, ffi)
            failed = any(c.endswith("fault") for c in calls)
            ctx.eq("error of a failing call", got, (cls, "planned fault") if failed else None, what + " at %d" % n)
            # and the next call works
            lib.vpt_reset()
            op(thy, ctl)
            ctx.check(any(c.startswith(name) for c in log(lib, ffi)), "call after a failing call", what)
    # creation
    for code, cls in codes.items():
        lib.vpt_reset()
        lib.vpt_plan(0, code)
        ctx.execs += 1
        err = io.StringIO()
        with contextlib.redirect_stderr(err):
            try:
                Theory("vpt", lib, ffi)
                got = None
            except BaseException as e:
                got = (type(e), str(e))
        lib.vpt_plan(-1, 0)
        gc.collect()
        ctx.eq("error of creation", got, (cls, "planned fault"), str(code))
        ctx.check(not any(c.startswith("destroy") for c in log(lib, ffi)), "no destruction without creation", str(code))
    # exceptions of the callback
    lib.vpt_reset()
    thy = Theory("vpt", lib, ffi)
    other = Theory("vpt", lib, ffi)
    excs = [Boom("x"), ValueError(), KeyboardInterrupt("k"), MemoryError("m"), RuntimeError("r"), Boom("\ud800"), SystemExit(3), StopIteration(1)]
    for k, pos, e, t, dirty in itertools.product((1, 2, 3), (0, 1, 2), excs, (thy, other), (False, True)):
        what = "exception %r at call %d of %d%s" % (e, pos, k, " after an error" if dirty else "")
        ctx.journal(what)
        if dirty:
            try:
                clingo.Control(["--no-such-option"])
            except RuntimeError:
                pass
        ctx.execs += 1
        lib.vpt_rewrites(rep(t), k)
        n = [0]

        def add(x):
            n[0] += 1
            if n[0] == pos + 1:
                raise e

        lib.vpt_take_log()
        try:
            t.rewrite_ast(stm(), add)
            got = None
        except BaseException as x:
            got = x
        ctx.check(got is (e if pos < k else None), "exception of the callback reaches the caller", what + ": %r" % (got,))
        ctx.eq("calls of the callback", n[0], min(k, pos + 1), what)
    # nested errors: an error of the library within the callback
    lib.vpt_rewrites(rep(thy), 2)
    for inner in ("parse", "nested"):

        def add2(x):
            if inner == "parse":
                ast.parse_string("a(", lambda s: None, logger=lambda c, m: None)
            else:
                other.rewrite_ast(x, lambda y: 1 / 0)

        try:
            thy.rewrite_ast(stm(), add2)
            got = "none"
        except Exception as x:
            got = type(x).__name__
        ctx.eq("error within the callback", got, {"parse": "RuntimeError", "nested": "ZeroDivisionError"}[inner], inner)
    ctx.nontrivial += 1


def builder(ctx):
    """Rewriting into controls has the effect of adding the program once per copy."""
    clingo, lib, ffi, Theory = env()
    from clingo import ast

    lib.vpt_reset()
    thy = Theory("vpt", lib, ffi)
    progs = ["{a;b}. c:-a.", "#program p(k). q(k).", "#const n=3. p(1..n).", "a. #show a/0. b."]
    for prg, k in itertools.product(progs, (0, 1, 2)):
        what = "%s times %d" % (prg, k)
        ctx.journal(what)
        ctx.execs += 1
        res = []
        for mode in ("theory", "plain"):
            ctl = clingo.Control(["0", "--warn=none"])
            stms = []
            ast.parse_string(prg, stms.append)
            with ast.ProgramBuilder(ctl) as bld:
                for s in stms:
                    if mode == "theory":
                        lib.vpt_rewrites(rep(thy), k if s.ast_type not in (ast.ASTType.Program, ast.ASTType.Definition) else 1)
                        thy.rewrite_ast(s, bld.add)
                    else:
                        for _ in range(k if s.ast_type not in (ast.ASTType.Program, ast.ASTType.Definition) else 1):
                            bld.add(s)
            ctl.ground([("base", []), ("p", [clingo.Number(4)])])
            ms = []
            ctl.solve(on_model=lambda m: ms.append(" ".join(sorted(map(str, m.symbols(shown=True))))))
            res.append(sorted(ms))
        ctx.eq("rewritten program", res[0], res[1], what)
    # identity of the statement handed to the callback: changing it does not change the original unless it is the same node
    ctx.nontrivial += 1


def app(ctx):
    """Options of theories in applications."""
    clingo, lib, ffi, Theory = env()
    from clingo.application import Application, clingo_main

    for nthy, args in itertools.product((1, 2), itertools.product((None, "0", "5", "7", "x"), repeat=2)):
        lib.vpt_reset()
        thys = [Theory("vpt", lib, ffi) for _ in range(nthy)]
        argv = ["--warn=none", "--outf=3", "--quiet=2"]
        for i in range(2):
            if args[i] is not None:
                argv.append("--vpt-opt%d=%s" % (i + 1, args[i]))
        what = "%d theories, %s" % (nthy, argv)
        ctx.journal(what)
        ctx.execs += 1
        seen = {}

        class A(Application):
            program_name = "vpt"
            version = "1"

            def register_options(self, options):
                for t in thys:
                    t.register_options(options)

            def validate_options(self):
                try:
                    for t in thys:
                        t.validate_options()
                except RuntimeError as e:
                    seen["error"] = str(e)
                    return False
                return True

            def main(self, ctl, files):
                for t in thys:
                    t.register(ctl)
                ctl.ground([("base", [])])
                for t in thys:
                    t.prepare(ctl)
                ms = []

                def om(m):
                    for t in thys:
                        t.on_model(m)
                    ms.append(sorted(str(s) for s in m.symbols(atoms=True, theory=True)))

                ctl.solve(on_model=om)
                seen["models"] = ms

        null, save = os.open("/dev/null", os.O_WRONLY), [os.dup(1), os.dup(2)]
        os.dup2(null, 1)
        os.dup2(null, 2)
        try:
            code = clingo_main(A(), argv)
        finally:
            os.dup2(save[0], 1)
            os.dup2(save[1], 2)
            for fd in save + [null]:
                os.close(fd)
        calls = log(lib, ffi)
        exp = ["create 0 %d" % (i + 1) for i in range(nthy)] + ["register_options %d" % (i + 1) for i in range(nthy)]
        if "x" in args[:nthy] or any(a is not None for a in args[nthy:]):
            ctx.eq("calls", calls, exp, what)
            ctx.check(code != 0 and not seen, "bad option is rejected", what)
            continue
        for i in range(nthy):
            exp.append("validate_options %d %d" % (i + 1, int(args[i] or 0)))
            if args[i] == "7":
                break
        if "7" in args[:nthy]:
            ctx.eq("calls", calls, exp, what)
            ctx.check(seen == {"error": "seven is not permitted"}, "bad value is rejected", what + " %s" % seen)
            continue
        ctx.eq("calls", [c.rsplit(" ", 1)[0] if c.startswith("register ") else " ".join(c.split()[:2]) if c.startswith("prepare") else c for c in calls], exp + ["register %d" % (i + 1) for i in range(nthy)] + ["prepare %d" % (i + 1) for i in range(nthy)] + ["on_model %d 1" % (i + 1) for i in range(nthy)], what)
        ctx.eq("model", seen.get("models"), [sorted("%s(%d)" % x for i in range(nthy) for x in (("reg", i + 1), ("thy%d" % (i + 1), 1)))], what)
    ctx.nontrivial += 1


def tasks(tier):
    out = []
    for lib in ("sys", "eng"):
        out += [Py("tables", i, 2, lib=lib) for i in range(2)]
        out += [Py("faults", lib=lib), Py("builder", lib=lib), Py("app", lib=lib)]
    out += [Py("seqs", op, lib="sys" if i % 2 else "eng", name="seqs(%s)" % (op,)) for i, op in enumerate(OPS) if op != ("new", 1)]
    if tier == "thorough":
        out += [Py("seqs", op, lib="eng" if i % 2 else "sys", name="seqs(%s)'" % (op,)) for i, op in enumerate(OPS) if op != ("new", 1)]
    return out
