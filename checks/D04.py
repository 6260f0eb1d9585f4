"""D04: external functions receive the terms and supply the values of the program."""
import itertools
import os
import re
import subprocess
import sys

import asp
import checks.solvelib as sl
from vplib import Py

PID = "D04"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of return values, argument tuples, positions of calls in programs, and combinations of contexts and scripts, with every call logged and the ground program compared with a reference evaluation"
NOTE = "All values and value lists up to length three in every shape a function can return them, all argument tuples up to length three over ten symbols of all types, all positions of calls in a program with value lists up to length two, and every failing or ill-typed function, for context methods (Python, C++, Lua), embedded scripts (Python, Lua) and registered script languages; all combinations of a context and three script languages that define a function and are activated, in all orders of registration; scripts with main functions in the clingo executable. On two libraries."
RULE = ""
BUILD = ["sys/py/_clingo.so", "sys/lua/clingo.so", "sys/drv/icpp", "eng/py/_clingo.so", "eng/lua/clingo.so", "eng/drv/icpp", "sys/bin/clingo", "eng/bin/clingo"]
ASSUMPTIONS = ["a function may be called more than once for the same arguments where the call depends on variables"]
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

SYMS = ["1", "-3", "a", "-b(2)", '"s\\n\\\\t"', "(1,)", "f(x,(2,))", "#inf", "#sup", "()"]
CORE = ["1", "a", '"1"', "(1,\"x\")"]
VAL = ["1", "2", "a", '"1"', "(1,)"]
SHAPES = {"python": ["one", "list", "tuple", "gen", "iter", "dict"], "c++": ["one", "list", "split", "init"], "lua": ["one", "list", "nat", "natlist"]}
BAD = {
    "python": [("none", "no attribute"), ("str", "no attribute"), ("bad", "no attribute"), ("int", "no attribute"), ("raise", "lookup f"), ("late", "late")],
    "c++": [("raise", "lookup f"), ("late", "late")],
    "lua": [("none", "cannot convert"), ("bool", "cannot convert"), ("bad", "cannot convert"), ("nest", "cannot convert"), ("raise", "lookup f"), ("frac", "number"), ("big", "number")],
}


class Run:
    def __init__(self, ctx, lang, via):
        self.ctx, self.lang, self.via = ctx, lang, via
        self.I = sl.Interp(ctx, lang)
        self.key = "%s: " % lang + ("" if via == "context" else "script: " if via == "script" else "registered script: ")
        if via == "custom":
            register("custom", self.I.i)
        elif via == "script" and lang == "python":
            import __main__
            import clingo.script

            __main__.vp_call = lambda n, *a: self.I.i.call(n, a)
            clingo.script.enable_python()

    def start(self, text, funs):
        I = self.I
        I.do("reset")
        I.ok("new", "0")
        for n, (shape, v) in funs.items():
            I.ok("fun", n, shape, "\x03".join(v))
        if self.via == "script":
            for n in sorted(funs):
                text += "\n#script(%s)\n" % self.lang
                text += "def %s(*a):\n  return vp_call('%s', *a)\n" % (n, n) if self.lang == "python" else "function %s(...) return vp_call('%s', ...) end\n" % (n, n)
                text += "#end.\n"
        elif self.via == "custom":
            text += "#script(custom) run #end."
        I.ok("add", "base", "", text)
        return I.do("groundx" if self.via == "context" else "ground", "base")


def register(name, i, defs=None, log=None):
    import clingo.script

    class S(clingo.script.Script):
        def execute(self, location, code):
            if log is not None:
                log.append("execute %s %s %s" % (name, location.begin.line, code))
            if "fail" in code:
                raise LookupError("execute failed")

        def callable(self, n):
            return n in (i.funs if defs is None else defs)

        def call(self, location, n, args):
            assert location.begin.line > 0
            if defs is not None:
                log.append("call %s %s" % (name, " ".join(map(str, args))))
                return defs[n]
            return i.call(n, list(args))

    clingo.script.register_script(name, S())


def holds(ctx, R, what):
    """The atoms of the single model."""
    m = sl.models(R.I.solve("c"))
    ctx.execs += 1
    if not ctx.check(len(m) == 1, R.key + "number of models", "%s: %r" % (what, m)):
        return set()
    return set(asp.split(m[0], ",")) if m[0] else set()


def returns(ctx, lang, via):
    R = Run(ctx, lang, via)
    lists = [[]] + [[x] for x in SYMS] + [list(c) for k in (2, 3) for c in itertools.product(CORE, repeat=k)]
    if lang == "lua" and via == "context":
        lists += [["2147483647"], ["-2147483648"]]
    for shape in SHAPES[lang]:
        for v in lists:
            if shape in ("one", "nat") and len(v) != 1 and lang != "c++":
                continue
            for text in ("p(@f(1)). q.", "p(X):-X=@f(1). q."):
                ctx.journal("%s %s returns %s %r in %s" % (lang, via, shape, v, text))
                r = R.start(text, {"f": (shape, v)})
                if not ctx.check(r == "ok", R.key + "grounding fails", "%s %r: %s" % (shape, v, r)):
                    continue
                ctx.eq(R.key + "calls", R.I.do("funlog"), "f 1", "%s %r" % (shape, v))
                ctx.eq(R.key + "values returned as " + shape, holds(ctx, R, v), {"p(%s)" % x for x in v} | {"q"}, "%r" % v)
                ctx.state((shape, tuple(v)))
                ctx.nontrivial += len(v) > 1
    for shape, msg in BAD[lang]:
        for text in ("a. p(@f(1)). b.", "p(@g(@f(1))).", "p(X):-X=1..2,X=@f(X)."):
            ctx.journal("%s %s bad return %s in %s" % (lang, via, shape, text))
            r = R.start(text, {"f": (shape, ["1", "a"]), "g": ("args", [])})
            ctx.check(r.startswith("E:") and msg in r, R.key + "failing function (%s)" % shape, "%s: %r" % (text, r))
            log = R.I.do("funlog")
            ctx.check(log in ("f 1", "f 2"), R.key + "calls of failing function", log)
            ctx.execs += 1
            # another control is unaffected
            r = R.start("p(@f(1)).", {"f": ("list", ["1"])})
            ctx.check(r == "ok", R.key + "grounding after a failure", r)
            ctx.eq(R.key + "values after a failure", holds(ctx, R, shape), {"p(1)"}, shape)
    if lang == "lua" and via == "script":
        for text, loc in (("a. p(@f(1)). b.", "1:6-11"), ("a.\np(@f(1\n)).", "2:3-3:2"), ("q(1,\n  @f(2)):-a.", "2:3-8"), ("a.\n:- X=1,\n@f(X,\n\n1)=2.", "3:1-5:3")):
            ctx.journal("lua script location %s" % text)
            r = R.start(text, {"f": ("raise", ["1"])})
            ctx.check("<block>:%s: error: " % loc in r, R.key + "location of the failing call", "%r: %s" % (text, r))
    if via == "context":
        # a context does not fall back to functions of the interpreter
        for name in ("print", "tostring", "len", "str", "type"):
            ctx.journal("%s context without %s" % (lang, name))
            r = R.start("p(@%s(1)). q." % name, {"f": ("one", ["1"])})
            ctx.check(r.startswith("E:"), R.key + "function missing in the context", "%s: %s" % (name, r))
    # functions that are not defined
    ctx.journal("%s %s undefined function" % (lang, via))
    r = R.start("p(@zz(1)). q.", {"f": ("one", ["1"])})
    if via == "context":
        ctx.check(r.startswith("E:"), R.key + "undefined function", r)
    else:
        ctx.eq(R.key + "undefined function", r, "ok", "")
        ctx.eq(R.key + "undefined function", holds(ctx, R, ""), {"q"}, "")
        ms = R.I.do("msgs").split("\x01")
        ctx.check(len(ms) == 1 and ms[0].startswith("OperationUndefined|") or ms[0].startswith("MessageCode.OperationUndefined|"), R.key + "undefined function message", "%r" % ms)
        ctx.check("'zz'" in ms[0], R.key + "undefined function message", "%r" % ms)


def arguments(ctx, lang, via, i, n):
    R = Run(ctx, lang, via)
    deep = 4 if ctx.tier == "thorough" else 3
    ts = [t for k in range(4) for t in itertools.product(SYMS, repeat=k)] + ([t for t in itertools.product(SYMS[:6], repeat=4)] if deep == 4 else [])
    # one program per group of tuples with a function per tuple
    for g in sl.chunks([ts[j : j + 12] for j in range(0, len(ts), 12)], i, n):
        ctx.journal("%s %s arguments %r" % (lang, via, g))
        text = "".join("p(%d,@f%d(%s)).\n" % (j, j, ",".join(t)) for j, t in enumerate(g))
        r = R.start(text, {"f%d" % j: ("args", []) for j in range(len(g))})
        if not ctx.check(r == "ok", R.key + "grounding fails", r):
            continue
        want = sorted("f%d %s" % (j, "\x03".join(t)) for j, t in enumerate(g))
        ctx.eq(R.key + "calls", sorted(R.I.do("funlog").split("\x01")), want, "%r" % g)
        ctx.eq(R.key + "values", holds(ctx, R, g), {"p(%d,%s)" % (j, x) for j, t in enumerate(g) for x in t}, "%r" % g)
        ctx.transitions += len(g)
        ctx.nontrivial += 1
    if i == 0:
        for name in ("f", "_f", "f'", "fooBar_1", "__x", "end"):
            if via == "script" and (name in ("f'", "end") or lang == "lua" and name == "end"):
                continue
            ctx.journal("%s %s name %s" % (lang, via, name))
            r = R.start("p(@%s(1,a))." % name, {name: ("args", [])})
            ctx.eq(R.key + "function name", r, "ok", name)
            ctx.eq(R.key + "calls", R.I.do("funlog"), "%s 1\x03a" % name, name)
            ctx.eq(R.key + "values", holds(ctx, R, name), {"p(1)", "p(a)"}, name)


def num(x):
    try:
        return int(x)
    except ValueError:
        return None


def less(x, y):
    """Order of numbers, identifiers, strings, and tuples as in SYMS."""
    def k(s):
        n = num(s)
        return (0, n) if n is not None else (2, s) if s == "a" else (1, s) if s[0] == '"' else (3, s)

    return k(x) < k(y)


# text, calls of f, atoms for the values F of f
TEMPLATES = [
    ("p(X):-X=@f(1).", ["1"], lambda F: F),
    ("p(@f(1)) :- not q. ", ["1"], lambda F: F),
    ("p((X,Y)):-X=1..2,Y=@f(X).", ["1", "2"], lambda F: ["(%d,%s)" % (x, y) for x in (1, 2) for y in F]),
    ("p(X):-X=1..3,X=@f(X).", ["1", "2", "3"], lambda F: [y for y in F if y in "123"]),
    ("p(X):-X=1..3,X<@f(0).", ["0"], lambda F: [x for x in "123" if any(less(x, y) for y in F)]),
    ("p(X):-X=(1;a;\"1\"),@f(0)!=X.", ["0"], lambda F: [x for x in ("1", "a", '"1"') if any(x != y for y in F)]),
    ("p(@g(@f(1))).", ["1"], lambda F: F),
    ("p(@f(1)+1).", ["1"], lambda F: [str(num(x) + 1) for x in F if num(x) is not None]),
    ("p(-@f(1)):-1=1.", ["1"], lambda F: ["-" + x for x in F if x == "a" or num(x) is not None or x[0] == "("]),
    ("p(1..@f(0)).", ["0"], lambda F: [str(y) for x in F if num(x) is not None for y in range(1, num(x) + 1)]),
    ("p(@f(1;2)).", ["1", "2"], lambda F: F),
    ("p(@f((1,2))).", ["(1,2)"], lambda F: F),
    ("p(@f(1,2)).", ["1\x032"], lambda F: F),
    ("q(1..2). p(X):-q(@f(X)),q(X).", ["1", "2"], lambda F: ["1", "2"] if set(F) & {"1", "2"} else []),
    ("q(1). p(X):-X=1..2,not q(@f(X)).", ["1", "2"], lambda F: ["1", "2"] if set(F) - {"1"} else []),
    ("p(S):-S=#sum{X,Y:X=1..2,Y=@f(X)}.", ["1", "2"], lambda F: [str(3 * len(set(F)))]),
    ("p(S):-S=#count{Y:Y=@f(1)}.", ["1"], lambda F: [str(len(set(F)))]),
    ("#const n=@f(1). p(n).", ["1"], lambda F: F),
    ("p(X):-r(X). r(X):-X=@f(Y),Y=1..2.", ["1", "2"], lambda F: F),
    ("p(@f(X)):-X=1..2,X!=@g(2).", ["1"], lambda F: F),
    ("#external p(@f(1)). [true]", ["1"], lambda F: F),
    ("p(f(@f(1),@f(2))).", ["1", "2"], lambda F: ["f(%s,%s)" % (x, y) for x in F for y in F]),
    ("p(X):-(X,Y)=(@f(1),@f(1)),X=Y.", ["1"], lambda F: F),
    ("p(X):-q(X,@f(X)). q(1..2,a). q(3,1).", ["1", "2", "3"], lambda F: (["1", "2"] if "a" in F else []) + (["3"] if "1" in F else [])),
    ("p(X):-X=@h(Y),Y=@f(1).", ["1"], lambda F: ["9"] if F else []),
]


def positions(ctx, lang, via, i, n):
    R = Run(ctx, lang, via)
    lists = [list(c) for k in range(3) for c in itertools.product(VAL, repeat=k)] + [["3", "1", "2"]]
    if ctx.tier == "thorough":
        lists += [list(c) for c in itertools.product(VAL, repeat=3)]
    for text, calls, ref in sl.chunks(TEMPLATES, i, n):
        for F in lists:
            ctx.journal("%s %s position %s with %r" % (lang, via, text, F))
            r = R.start(text, {"f": ("list", F), "g": ("args", []), "h": ("one", ["9"])})
            if not ctx.check(r == "ok", R.key + "grounding fails", "%s %r: %s" % (text, F, r)):
                continue
            log = R.I.do("funlog").split("\x01")
            got = [l[2:] for l in log if l.startswith("f ")]
            if F:
                ctx.eq(R.key + "calls by arguments", sorted(set(got)), calls, text)
            else:
                ctx.check(got and set(got) <= set(calls), R.key + "calls by arguments", "%s: %r" % (text, got))
            ctx.transitions += len(got)
            m = holds(ctx, R, text)
            ctx.eq(R.key + "values in a program", {a for a in m if a.startswith("p(")}, {"p(%s)" % x for x in ref(F)}, "%s with %r" % (text, F))
            ctx.nontrivial += len(F) > 1


def precedence(ctx, i, n):
    """Contexts and three languages that define f and are activated, in all orders of registration."""
    combos = list(itertools.product(itertools.permutations(("python", "s1", "s2")), itertools.product((0, 1), repeat=3), itertools.product((0, 1), repeat=3), ("none",)))
    combos += list(itertools.product([("s1", "python", "s2")], itertools.product((0, 1), repeat=3), itertools.product((0, 1), repeat=3), ("without", "with")))
    for order, define, active, context in sl.chunks(combos, i, n):
        ctx.journal("precedence order %r define %r active %r context %s" % (order, define, active, context))
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.write(w, repr(precede(order, dict(zip(order, define)), dict(zip(order, active)), context)).encode())
                code = 0
            except BaseException as e:
                os.write(w, repr(("died", repr(e))).encode())
            finally:
                os._exit(code)
        os.close(w)
        out = b""
        while True:
            x = os.read(r, 65536)
            if not x:
                break
            out += x
        os.close(r)
        os.waitpid(pid, 0)
        ctx.execs += 1
        got = eval(out.decode()) if out else ("died", "")
        ex = ["execute %s 2 code" % l for l in ("s1", "s2") if dict(zip(order, active))[l]]
        first = [l for l, d, a in zip(order, define, active) if d and a]
        if context == "with":
            want = (ex + ["call context 1"], ["p(context)", "q"], [])
        elif context == "without":
            want = (ex, "AttributeError", [])
        elif first:
            want = (ex + ["call %s 1" % first[0]], ["p(%s)" % first[0], "q"], [])
        else:
            want = (ex, ["q"], ["OperationUndefined"])
        ctx.eq("python: precedence of functions", got, want, "")
        ctx.state((order, define, active, context))


def precede(order, define, active, context):
    import __main__
    import clingo
    import clingo.script

    log, msgs = [], []

    def fun(lang):
        def f(*a):
            log.append("call %s %s" % (lang, " ".join(map(str, a))))
            return clingo.Function(lang, [])

        return f

    for l in order:
        if l == "python":
            clingo.script.enable_python()
            if define[l]:
                __main__.f = fun(l)
        else:
            register(l, None, {"f": [clingo.Function(l, [])]} if define[l] else {}, log)
    text = "p(@f(1)). q.\n"
    for l in ("s1", "s2"):
        if active[l]:
            text += "#script(%s)code#end." % l
    if active["python"]:
        text += "#script(python)#end."
    c = clingo.Control(logger=lambda c, m: msgs.append(c.name))
    c.add("base", [], text)
    C = type("C", (), {"f": lambda self, *a: fun("context")(*a)} if context == "with" else {})
    try:
        c.ground([("base", [])], None if context == "none" else C())
    except AttributeError:
        return log, "AttributeError", msgs
    out = []
    c.solve(on_model=lambda m: out.append(sorted(map(str, m.symbols(atoms=True)))))
    assert len(out) == 1
    return log, out[0], msgs


def execute(ctx):
    """Script statements are executed once, in order, with their text."""
    import clingo
    import clingo.script

    log = []
    for l in ("s1", "s2"):
        register(l, None, {}, log)
    codes = ["", "x", " a b ", "\n  two\n lines\n", "% no comment", "#en d", "\u00e4\"'", "#end"]
    for k in range(1, 3):
        for cs in itertools.product(itertools.product(("s1", "s2"), codes[:7]), repeat=k):
            ctx.journal("execute %r" % (cs,))
            del log[:]
            c = clingo.Control()
            c.add("base", [], "a.\n" + "".join("#script(%s)%s#end.\nb.\n" % x for x in cs))
            want, line = [], 2
            for l, code in cs:
                want.append("execute %s %s %s" % (l, line, code.strip(" ")))
                line += 2 + code.count("\n")
            ctx.eq("python: code executed", log, want, repr(cs))
            ctx.execs += 1
    # the version of the interpreter as the library knows it (it is part of clingo's --version)
    import ctypes
    import platform

    clingo.script.enable_python()
    f = ctypes.CDLL(None).clingo_script_version
    f.restype, f.argtypes = ctypes.c_char_p, [ctypes.c_char_p]
    for l, want in (("python", platform.python_version()), ("s1", "1.0.0"), ("zz", None)):
        v = f(l.encode())
        ctx.eq("python: version of a script language", v and v.decode(), want, l)
    for text, msg in (("#script(s1)fail#end.", "execute failed"), ("#script(zz)a#end.", "zz support not available")):
        try:
            clingo.Control().add("base", [], text)
            ctx.fail("python: failing script", text)
        except RuntimeError as e:
            ctx.check(msg in str(e), "python: failing script", str(e))


MAINS = {
    "python": [
        "def main(prg):\n  prg.ground([('base',[])])\n  prg.solve()\n",
        "def main(prg):\n  prg.add('x',['n'],'x(@f(n)).')\n  prg.ground([('base',[]),('x',[clingo.Number(1)])])\n  prg.solve()\n",
        "def main(prg):\n  prg.ground([('base',[])])\n  print(prg.solve(on_model=lambda m: print('M',m)))\n",
        "def main(prg):\n  pass\n",
        "def main(prg):\n  raise LookupError('oops')\n",
        "", "1/0", "def (",
    ],
    "lua": [
        "function main(prg)\n  prg:ground({{'base',{}}})\n  prg:solve()\nend\n",
        "function main(prg)\n  prg:add('x',{'n'},'x(@f(n)).')\n  prg:ground({{'base',{}},{'x',{1}}})\n  prg:solve()\nend\n",
        "function main(prg)\n  prg:ground({{'base',{}}})\n  print(prg:solve{on_model=function(m) print('M '..tostring(m)) end})\nend\n",
        "function main(prg)\nend\n",
        "function main(prg)\n  error('oops')\nend\n",
        "", "error('fail')", "x = = 1",
    ],
}
ERRORS = {"python4": ("LookupError", "oops"), "python6": ("ZeroDivisionError",), "python7": ("SyntaxError",), "lua4": ("RuntimeError", "oops"), "lua6": ("RuntimeError", "fail"), "lua7": ("SyntaxError", "unexpected symbol")}
FUNS = {"python": "import clingo\ndef f(x):\n  return [x,clingo.Function('r',[x])]\n", "lua": "local clingo=require('clingo')\nfunction f(x)\n  return {x,clingo.Function('r',{x})}\nend\n"}


def executable(ctx):
    lib = "eng" if "eng" in os.environ.get("LD_LIBRARY_PATH", "") else "sys"
    exe = os.path.join(VERIF, ".build", lib, "bin", "clingo")
    for lang in ("python", "lua"):
        for k, main in enumerate(MAINS[lang]):
            for both in (0, 1):
                other = "lua" if lang == "python" else "python"
                text = "p(@f(2)).\n#script(%s)\n%s%s#end.\n" % (lang, FUNS[lang], main)
                if both:
                    text += "#script(%s)\n%s#end.\n" % (other, FUNS[other])
                ctx.journal("clingo with script\n%s" % text)
                p = subprocess.run([exe, "0"], input=text, capture_output=True, text=True)
                ctx.execs += 1
                ans = [sorted(p.stdout.split("\n")[j + 1].split()) for j, l in enumerate(p.stdout.split("\n")) if l.startswith("Answer:")]
                want = [] if k in (3, 4, 6, 7) else [["p(2)", "p(r(2))"] + (["x(1)", "x(r(1))"] if k == 1 else [])]
                key = "clingo with %s script: " % lang
                ctx.eq(key + "answers", ans, want, p.stdout + p.stderr)
                ctx.check(p.returncode in {3: (0,), 4: (65, 33), 6: (65, 33), 7: (65, 33)}.get(k, (10, 30)), key + "exit code", "%d: %s" % (p.returncode, p.stderr))
                if k == 2:
                    ctx.check("M p(2) p(r(2))" in p.stdout and "SAT" in p.stdout, key + "model callback", p.stdout)
                if k in (4, 6, 7):
                    ctx.check(all(x in p.stderr for x in ERRORS[lang + str(k)]), key + "error message", p.stderr)


CUSTOM = """
import sys, clingo
from clingo.script import Script, register_script
from clingo.application import Application, clingo_main
class S(Script):
    def __init__(self, name): self.name, self.code = name, ''
    def execute(self, location, code): self.code += code
    def call(self, location, name, arguments): return [clingo.Function(name + self.name, arguments)]
    def callable(self, name): return name in self.code.split()
    def main(self, control):
        print('main', self.name)
        control.ground([('base', [])])
        print('result', control.solve())
for n in ('s1', 's2'): register_script(n, S(n))
class App(Application):
    program_name = 'vp'
sys.exit(clingo_main(App(), ['0']))
"""


def custom(ctx):
    """An application runs the main function of a registered script if there is one."""
    for a in itertools.product(("", "f", "main", "f main"), repeat=2):
        text = "p(@f(2)).\n" + "".join("#script(s%d)%s#end.\n" % (i + 1, x) for i, x in enumerate(a))
        ctx.journal("application with scripts\n" + text)
        p = subprocess.run([sys.executable, "-c", CUSTOM], input=text, capture_output=True, text=True)
        ctx.execs += 1
        ctx.state(a)
        f = [i + 1 for i, x in enumerate(a) if "f" in x]
        m = [i + 1 for i, x in enumerate(a) if "main" in x]
        ctx.nontrivial += bool(m)
        got = re.findall(r"^(?:main .*|result .*)$", p.stdout, re.M)
        ans = [l for l, k in zip(p.stdout.split("\n")[1:], p.stdout.split("\n")) if k.startswith("Answer:")]
        # any of several functions with the same name may be chosen
        ctx.check(got in ([["main s%d" % i, "result SAT"] for i in m] or [[]]), "python: main of a registered script", "%r: %s%s" % (a, p.stdout, p.stderr))
        ctx.check(ans in ([["p(fs%d(2))" % i] for i in f] or [[""]]), "python: functions of a registered script", "%r: %s%s" % (a, p.stdout, p.stderr))


SIZES = list(range(1, 17)) + [31, 32, 33, 64, 65, 128, 129, 256, 257, 300]


def wide(ctx, lang, via):
    """Every number of arguments and of returned values."""
    R = Run(ctx, lang, via)
    for n in SIZES:
        v = [str(i) for i in range(n)]
        ctx.journal("%s %s wide %d" % (lang, via, n))
        r = R.start("p(@f(%s)). q(@g(X)):-X=1..%d. l(@h(x))." % (",".join(v), n), {"f": ("args", []), "g": ("args", []), "h": ("list", v)})
        if not ctx.check(r == "ok", R.key + "grounding fails", "%d: %s" % (n, r)):
            continue
        ctx.eq(R.key + "calls", sorted(R.I.do("funlog").split("\x01")), sorted(["f " + "\x03".join(v), "h x"] + ["g %d" % (i + 1) for i in range(n)]), "size %d" % n)
        ctx.eq(R.key + "values", holds(ctx, R, n), {"p(%s)" % x for x in v} | {"l(%s)" % x for x in v} | {"q(%d)" % (i + 1) for i in range(n)}, "size %d" % n)
        ctx.nontrivial += 1
        ctx.state(n)


def tasks(tier):
    out = []
    for lib in ("sys", "eng"):
        for lang, vias in (("python", ("context", "script", "custom")), ("c++", ("context",)), ("lua", ("context", "script"))):
            for via in vias:
                t = "%s-%s-%s" % (lang, via, lib)
                out.append(Py("wide", lang, via, lib=lib, name="wide-" + t))
                out.append(Py("returns", lang, via, lib=lib, name="returns-" + t))
                out.append(Py("arguments", lang, via, 0, 1, lib=lib, name="arguments-" + t))
                out.append(Py("positions", lang, via, 0, 1, lib=lib, name="positions-" + t))
        out += [Py("precedence", i, 2, lib=lib, name="precedence-%s-%d" % (lib, i)) for i in range(2)]
        out.append(Py("execute", lib=lib, name="execute-" + lib))
        out.append(Py("custom", lib=lib, name="custom-" + lib))
        out.append(Py("executable", lib=lib, name="executable-" + lib))
    return out
