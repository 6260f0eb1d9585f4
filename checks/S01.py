"""S01: all pairs of a boundary alphabet of symbols, in each language, against the tuple model."""
import os
import re
import subprocess
import tempfile

import symmodel as sm
from vplib import B, REPO, Py

PID = "S01"
LEVEL = "exploration"
TECHNIQUE = "exhaustive bounded enumeration of all symbol pairs on the real bindings against a reference model"
NOTE = "Every symbol of a boundary alphabet up to nesting depth 2 and every ordered pair, in Python, C++ and Lua, on the installed libclingo and on one built from /repo's sources; says nothing about symbols outside the alphabet."
RULE = "one evaluation per ordered pair of symbols or per symbol observation; distinct_nontrivial counts distinct symbol descriptions and ordered pairs of different symbols"
BUILD = ["engine", "sys/py/_clingo.so", "eng/py/_clingo.so", "sys/lua/clingo.so", "eng/lua/clingo.so", "sys/drv/symprobe", "eng/drv/symprobe"]
ASSUMPTIONS = ["symbols up to nesting depth 2 over the alphabet of lib/symmodel.py", "symbols contain no NUL bytes"]
TYPES = {"inf": 0, "num": 1, "str": 4, "fun": 5, "sup": 7}
LT = {"inf": "Infimum", "num": "Number", "str": "String", "fun": "Function", "sup": "Supremum"}


def tasks(tier):
    big = tier == "thorough"
    return [Py("enums", lib=l, name="enums-" + l) for l in ("sys", "eng")] + [Py(f, lib=l, name=f + "-" + l) for f in ("versions", "calls") for l in ("sys", "eng")] + [Py("python", big, rev, lib=l) for l in ("sys", "eng") for rev in (False, True)] + [
        Py(f, big, l, lib=l) for f in ("cpp", "lua") for l in ("sys", "eng")
    ]


def bits(ka, kb):
    return (ka == kb) | (ka != kb) << 1 | (ka < kb) << 2 | (ka <= kb) << 3 | (ka > kb) << 4 | (ka >= kb) << 5


def python(ctx, big, rev):
    import clingo
    from clingo.symbol import SymbolType

    ds = sm.alphabet(big)
    if rev:
        ds.reverse()
    ctx.journal("construct")
    one = [sm.to_py(d) for d in ds]
    two = [sm.to_py(d) for d in reversed(ds)][::-1]
    PT = {"inf": SymbolType.Infimum, "num": SymbolType.Number, "str": SymbolType.String, "fun": SymbolType.Function, "sup": SymbolType.Supremum}

    def att(f):
        try:
            return f()
        except RuntimeError:
            return None

    for d, s in zip(ds, one):
        ctx.journal("symbol %s" % (d,))
        ctx.state(d)
        ctx.execs += 1
        k = d[0]
        ctx.eq("python: type", s.type, PT[k], "type")
        ctx.eq("python: raw structure", sm.from_py(s), d, "structure")
        ctx.eq("python: number", att(lambda: s.number), d[1] if k == "num" else None, "number")
        ctx.eq("python: string", att(lambda: s.string), d[1] if k == "str" else None, "string")
        f = k == "fun"
        ctx.eq("python: name", att(lambda: s.name), d[1] if f else None, "name")
        ctx.eq("python: positive", att(lambda: s.positive), d[3] if f else None, "positive")
        ctx.eq("python: negative", att(lambda: s.negative), (not d[3]) if f else None, "negative")
        a = att(lambda: s.arguments)
        ctx.eq("python: arguments", None if a is None else [sm.from_py(x) for x in a], list(d[2]) if f else None, "arguments")
        ctx.eq("python: text", str(s), sm.text(d), "str")
        for n in ("f", "a", "g", "", "ab"):
            for ar in range(4):
                for p in (True, False):
                    ctx.execs += 1
                    w = f and d[1] == n and len(d[2]) == ar and d[3] == p
                    ctx.eq("python: match", s.match(n, ar, p), w, "match(%r,%d,%s)" % (n, ar, p))
                w = f and d[1] == n and len(d[2]) == ar and d[3]
                ctx.eq("python: match default", s.match(n, ar), w, "match(%r,%d)" % (n, ar))
        if f:
            al = []
            if d[3]:
                al.append(clingo.Function(d[1], [sm.to_py(x) for x in d[2]]))
                al.append(clingo.Function(d[1], tuple(sm.to_py(x) for x in d[2])))
            if d[3] and not d[2]:
                al.append(clingo.Function(d[1]))
            if d[1] == "":
                al.append(clingo.Tuple_([sm.to_py(x) for x in d[2]]))
            if not d[3]:
                al.append(clingo.Function(d[1], [sm.to_py(x) for x in d[2]], positive=False))
            for x in al:
                ctx.eq("python: constructor variants", sm.from_py(x), d, "constructor")
    keys = [sm.key(d) for d in ds]
    for i, a in enumerate(one):
        ctx.journal("row %s" % (ds[i],))
        ka = keys[i]
        if not (a == one[i] and a == two[i] and hash(a) == hash(two[i])):
            ctx.fail("python: equal symbols differ", "%s" % (ds[i],))
        for j, b in enumerate(two):
            kb = keys[j]
            got = (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5
            if got != bits(ka, kb):
                ctx.fail("python: comparison", "%s vs %s: ==,!=,<,<=,>,>= give %s, expected %s" % (ds[i], ds[j], bin(got), bin(bits(ka, kb))))
        ctx.execs += len(two)
        ctx.nontrivial += len(two) - 1
        for o in (1, "a", None, object()):
            if a == o or not (a != o):
                ctx.fail("python: equal to a non-symbol", "%s == %r" % (ds[i], o))
            for op in ("__lt__", "__gt__", "__le__", "__ge__"):
                if getattr(a, op)(o) is not NotImplemented:
                    ctx.fail("python: ordered with a non-symbol", "%s %s %r" % (ds[i], op, o))
    ctx.journal("sets")
    ctx.eq("python: set", len(set(one) | set(two)), len(ds), "number of distinct symbols")
    ctx.eq("python: sorted", [sm.from_py(x) for x in sorted(one)], sorted(ds, key=sm.key), "sorted")
    ctx.eq("python: dict lookup", [{x: i for i, x in enumerate(one)}.get(y) for y in two], list(range(len(ds))), "dict")
    ctx.sample({"symbols": [sm.text(d) for d in ds[:6]], "pairs": len(ds) ** 2})


ENUMS = {  # values as documented in clingo.h
    "core.MessageCode": dict(OperationUndefined=0, RuntimeError=1, AtomUndefined=2, FileIncluded=3, VariableUnbounded=4, GlobalVariable=5, Other=6),
    "core.TruthValue": dict(Free=0, True_=1, False_=2, Release=3),
    "symbol.SymbolType": dict(Infimum=0, Number=1, String=4, Function=5, Supremum=7),
    "solving.ModelType": dict(StableModel=0, BraveConsequences=1, CautiousConsequences=2),
    "theory_atoms.TheoryTermType": dict(Tuple=0, List=1, Set=2, Function=3, Number=4, Symbol=5),
    "propagator.PropagatorCheckMode": dict(Off=0, Total=1, Fixpoint=2, Both=3),
    "propagator.PropagatorUndoMode": dict(Default=0, Always=1),
    "backend.TheorySequenceType": dict(Tuple=0, Set=1, List=2),
    "backend.HeuristicType": dict(Level=0, Sign=1, Factor=2, Init=3, True_=4, False_=5),
    "ast.ASTType": None,
}


def enums(ctx):
    """All pairs of members of each ordered enumeration, and of members of different ones."""
    import importlib
    import operator

    OPS = [operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge]
    every = []
    for name, vals in ENUMS.items():
        m, c = name.split(".")
        E = getattr(importlib.import_module("clingo." + m), c)
        ms = list(E)
        every.append(ms[0])
        every.append(ms[-1])
        if vals is not None:
            ctx.eq("python: members of " + c, {x.name: x.value for x in ms}, vals, "members")
        for x in ms:
            for y in ms:
                ctx.journal("%s %s %s" % (c, x.name, y.name))
                ctx.execs += 1
                ctx.nontrivial += x is not y
                ctx.state((c, x.name, y.name))
                ctx.eq("python: comparison of members of " + c, sum(bool(o(x, y)) << i for i, o in enumerate(OPS)), bits(x.value, y.value), "%s %s" % (x, y))
                if x is y:
                    ctx.eq("python: hash of members of " + c, hash(x), hash(E(x.value)), str(x))
    for x in every:
        for y in every + [x.value, "x", None]:
            if type(x) is type(y):
                continue
            ctx.journal("%s %s" % (x, y))
            ctx.execs += 1
            ctx.eq("python: members of different enumerations", [x == y, x != y], [False, True], "%s %s" % (x, y))
            for o in OPS[2:]:
                try:
                    r = o(x, y)
                except TypeError:
                    r = "TypeError"
                ctx.eq("python: order of members of different enumerations", r, "TypeError", "%s %s" % (x, y))


def versions(ctx):
    """The version reported by every interface is the one of the library."""
    import clingo

    import ctypes

    n = (ctypes.c_int * 3)()
    f = ctypes.CDLL("libclingo.so.4").clingo_version
    f.restype, f.argtypes = None, [ctypes.c_void_p] * 3
    f(*(ctypes.addressof(n) + 4 * i for i in range(3)))
    ctx.eq("python: version", clingo.version(), tuple(n), "version")
    ctx.eq("python: version", clingo.__version__, "%d.%d.%d" % tuple(n), "__version__")
    text = open(os.path.join(REPO, "libclingo", "clingo.h")).read()
    header = re.search(r'#define CLINGO_VERSION "([^"]*)"', text).group(1)
    out = _run(ctx, ["lua", os.path.join(os.path.dirname(__file__), "symprobe.lua")], ["inf"])
    ctx.eq("lua: version", [l for l in out if l.startswith("version ")], ["version " + header], "__version__")
    ctx.execs += 3


# constructor calls and their results (None if they fail)
LUA = {
    'Function("",{},false)': None, 'Function("",{1},false)': None, "Tuple({},false)": None, "Tuple({1},false)": None, "Tuple({1})": "(1,)", "Tuple({})": "()", "Tuple({1,2})": "(1,2)",
    'Function("",{},true)': "()", 'Function("f",{},false)': "-f", 'Function("f",nil,false)': "-f", 'Function("f",{true})': None, 'Function("f",{print})': None, 'Function("f",{{}})': None,
    'Function("f",1)': None, 'Function("f","x")': None, "Function(nil)": None, "Function({})": None, 'Number("x")': None, "Number({})": None, "Number(nil)": None, "String(nil)": None,
    "String({})": None, "Tuple(1)": None, "parse_term(nil)": None, "parse_term({})": None, "Number(2^31)": None, "Number(-2^31-1)": None, "Number(2^31-1)": "2147483647", "Number(-2^31)": "-2147483648",
    'Function("f",{2^31})': None, 'Function("f",{2^31-1,-2^31})': "f(2147483647,-2147483648)", "Infimum": "#inf", "Supremum": "#sup", "Infimum.number": "nil", "Infimum.name": "nil",
    "Infimum<1": None, "Number(1)<2": None, "Number(1)==1": "false", "Number(1)==c.Number(1)": "true", "Number(1)<c.Infimum": "false", 'parse_term("f(")': None, 'parse_term("X")': None,
}  # fmt: skip


def calls(ctx):
    """Valid and invalid constructor calls."""
    out = _run(ctx, ["lua", os.path.join(os.path.dirname(__file__), "symprobe.lua")], ["call " + x.encode().hex() for x in LUA])
    got = [l.split(" ") for l in out if l.startswith("call ")]
    for (x, want), l in zip(LUA.items(), got):
        ctx.journal("lua clingo." + x)
        ctx.execs += 1
        ctx.nontrivial += want is None
        ctx.state(x)
        ctx.eq("lua: constructor call", None if l[1] == "fail" else _unhex(l[2]), want, "clingo." + x)
        if "false)" in x and want is None:
            ctx.check("signs" in _unhex(l[2]), "lua: error message of constructor call", "clingo.%s: %s" % (x, _unhex(l[2])))
    ctx.eq("lua: complete", len(got), len(LUA), "constructor calls")


def _unhex(h):
    return "" if h == "-" else bytes.fromhex(h).decode("utf-8", "replace")


def _run(ctx, argv, lines):
    with tempfile.NamedTemporaryFile("w", suffix=".spec", delete=False) as f:
        f.write("\n".join(lines) + "\n")
    ctx.journal("probe %s" % (argv,))
    r = subprocess.run(argv + [f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    os.unlink(f.name)
    out = r.stdout.decode("utf-8", "replace")
    if not out.endswith("END\n"):
        ctx.fail("probe crashed", "%s ended with %s: %s %s" % (argv, r.returncode, out[-300:], r.stderr[-500:]))
    return out.splitlines()


def _common(ctx, lang, out, order):
    keys = [sm.key(d) for d in order]
    ns = nr = 0
    for l in out:
        w = l.split(" ")
        if w[0] == "sym":
            d = order[int(w[1])]
            ctx.journal("%s symbol %s" % (lang, d))
            ctx.state((lang, d))
            ns += 1
            ctx.execs += 1
            k, f = d[0], d[0] == "fun"
            ctx.eq(lang + ": type", w[2], str(TYPES[k]) if lang == "c++" else LT[k], "type")
            ctx.eq(lang + ": text", _unhex(w[3]), sm.text(d), "text")
            ctx.eq(lang + ": number", w[4], str(d[1]) if k == "num" else "!", "number")
            ctx.eq(lang + ": string", w[5] if w[5] == "!" else _unhex(w[5]), d[1] if k == "str" else "!", "string")
            ctx.eq(lang + ": name", w[6] if w[6] == "!" else _unhex(w[6]), d[1] if f else "!", "name")
            ctx.eq(lang + ": positive", w[7], str(int(d[3])) if f else "!", "positive")
            ctx.eq(lang + ": negative", w[8], str(int(not d[3])) if f else "!", "negative")
            a = "!"
            if f:
                a = "(" + "".join(sm.text(x).encode().hex() + "," for x in d[2]) + ")" + str(len(d[2]))
            ctx.eq(lang + ": arguments", w[9], a, "arguments")
            if lang == "c++":
                m = "".join(str(int(f and d[1] == n and len(d[2]) == ar)) for n in ("f", "a", "g", "") for ar in range(3))
                ctx.eq(lang + ": match", w[10], m, "match")
                ctx.eq(lang + ": stream output", w[11], "1", "operator<<")
        elif w[0] == "row":
            i = int(w[1])
            nr += 1
            row = l.split(" ", 2)[2]
            ctx.journal("%s row %s" % (lang, order[i]))
            if len(row) != len(order):
                ctx.fail(lang + ": row", "incomplete row")
                continue
            for j, c in enumerate(row):
                if ord(c) - 33 != bits(keys[i], keys[j]):
                    ctx.fail(lang + ": comparison", "%s vs %s: ==,!=,<,<=,>,>= bits %s, expected %s" % (order[i], order[j], bin(ord(c) - 33), bin(bits(keys[i], keys[j]))))
            ctx.execs += len(row)
            ctx.nontrivial += len(row) - 1
        elif w[0] == "BAD":
            ctx.fail(lang + ": " + w[1], l)
        elif w[0] == "distinct":
            ctx.eq("c++: hash set", int(w[1]), len(order), "distinct")
        elif w[0] == "default":
            ctx.check(_unhex(w[1]) == "0", "c++: default symbol", l)
    ctx.eq(lang + ": complete", (ns, nr), (len(order), len(order)), "number of observations")


def cpp(ctx, big, lib):
    lines, order = sm.spec(sm.alphabet(big))
    out = _run(ctx, [f"{B}/{lib}/drv/symprobe"], lines)
    _common(ctx, "c++", out, order)
    sigs = [(n, k, p) for n in ("a", "b", "ab", "_a", "f", "F'") for k in (0, 1, 2, 255, 70000) for p in (True, False)]
    got = [l[4:] for l in out if l.startswith("sig ")]
    want = ["%s %d %d %d %s%s/%d" % (n, k, p, not p, "" if p else "-", n, k) for n, k, p in sigs]
    ctx.journal("signatures")
    skip = [lib == "sys" and k > 65535 for _, k, _ in sigs]  # the installed 5.6.2 library mistakes these itself
    for g, w in zip(got, want):
        ctx.eq("c++: signature", g, w, "signature")
    ctx.eq("c++: signatures", len(got), len(want), "signatures")
    key = [(not p, k, n.encode()) for n, k, p in sigs]
    for l in out:
        if l.startswith("sigrow "):
            _, i, row = l.split(" ", 2)
            for j, c in enumerate(row):
                ctx.execs += 1
                if ord(c) - 33 != bits(key[int(i)], key[j]) and not skip[int(i)] and not skip[j]:
                    ctx.fail("c++: signature comparison", "%s vs %s: %s" % (sigs[int(i)], sigs[j], bin(ord(c) - 33)))


def lua(ctx, big, lib):
    lines, order = sm.spec(sm.alphabet(big))
    out = _run(ctx, ["lua", os.path.join(os.path.dirname(__file__), "symprobe.lua")], lines)
    _common(ctx, "lua", out, order)
