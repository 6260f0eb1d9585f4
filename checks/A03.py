"""A03: syntax-tree sequences behave like ordinary lists."""
import itertools

from checks import astlib
from checks.astlib import Ref, PyAst, CppAst
from vplib import Py

PID = "A03"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state search over the reachable contents of a sequence, every operation taken in every state and compared with a list"
NOTE = "From every content of length 0 to 3 (two or three distinct elements), all mutating operations at every position in [-5,5] to depth 2 (thorough 3); in every reached state all reading operations, all slices with bounds in {none,-2..2,4} and steps {none,1,2,-1,-2}, slices of slices, and changes through slice views made before and after; for node and string sequences, alone and beside a second sequence, and sequences of 4 to 300 elements, in Python (against list, including the class of error) and C++ (against vector, every access path and iterator)."
RULE = ""
BUILD = ["sys/py/_clingo.so", "eng/py/_clingo.so", "sys/drv/cppast", "eng/drv/cppast"]
ASSUMPTIONS = ["C++ positions stay in the domain of a vector; deletion, replacement and extension of slices are not offered by the interface", "insertion into a slice view is specified for step 1 only"]

SETUP = [("reset",), ("new", "10", "Variable", "L0", "sX"), ("new", "11", "Variable", "L1", "sY"), ("new", "12", "Function", "L0", "sf", "N10", "i0"), ("new", "13", "Variable", "L2", "sX")]
# root, attribute, element tokens, list token prefix
SHAPES = {
    "function": (("new", "0", "Function", "L0", "sf", "%s", "i0"), "arguments", "N", ["r10", "r11", "r12"]),
    "rule": (("new", "0", "Rule", "L0", "r12", "%s"), "body", "N", ["r10", "r11", "r13"]),
    "element": (("new", "0", "TheoryAtomElement", "N10,11", "%s"), "condition", "N", ["r10", "r12", "r11"]),
    "element2": (("new", "0", "TheoryAtomElement", "%s", "N10,11"), "terms", "N", ["r11", "r12", "r10"]),
    "operators": (("new", "0", "TheoryUnparsedTermElement", "%s", "r12"), "operators", "S", ["s-", "s+", "s"]),
    "guard": (("new", "0", "TheoryGuardDefinition", "%s", "st"), "operators", "S", ["s<=", "s\u00e4", "s!"]),
}
SL = [(a, b, c) for a in ("", -2, -1, 0, 1, 2, 4) for b in ("", -2, -1, 0, 1, 2, 4) for c in ("", 1, 2, -1, -2)]
SLT = [":".join(map(str, s)) for s in SL]
SL2 = ["::", "1::", ":-1:", "::-1", "::2", "1:2:", "-2::", "0:0:", "2:0:-1"]


def tok(kind, els):
    return kind + (",".join(e[1:] for e in els) if kind == "N" else "\x02".join(e[1:] for e in els))


def mutations(els, attr, kind, lang):
    v = els[-1]
    out = []
    for p in range(-5, 6):
        out += [("set", p, v), ("del", p), ("ins", p, v), ("pop", p)]
    out += [("app", els[0]), ("app", v), ("pop",), ("clear",)]
    if lang == "python":
        out += [("ext", tok(kind, els[:k])) for k in range(4)] + [("rev",)] + [("rem", e) for e in els]
        for s in ("::", "1::", ":-1:", "::-1", "1:3:", "::2"):
            for p in range(-3, 3):
                out += [("slset", s, p, v), ("sldel", s, p)]
                if s.count(":") == 2 and s.endswith(":") :
                    out.append(("slins", s, p, v))
    return [("seq", "0", attr) + o for o in out]


def reads(els, attr, lang):
    out = [("len",), ("iter",), ("riter",)] + [("get", p) for p in range(-6, 7)]
    if lang == "python":
        out += [(o, e) for o in ("idx", "cnt", "in") for e in els]
        out += [("sl", s) for s in SLT] + [("sllen", s) for s in SL2] + [("slsl", s, t) for s in SL2 for t in SL2] + [("slget", s, p) for s in SL2 for p in range(-4, 4)]
    return [("seq", "0", attr) + o for o in out]


def err(x, g):
    return g


def run(x, cmds):
    if isinstance(x, CppAst):
        return x.many(cmds)
    out = []
    for c in cmds:
        g = x.do(*c)
        out.append("E:" + type(x.last).__name__ if g == "E" else g)
    return out


class R(Ref):
    """The reference, with the class of error a list raises."""

    cpp = False

    def do(self, cmd, *a):
        try:
            if self.cpp and cmd == "seq" and a[2] in ("get", "set", "del", "ins", "pop") and len(a) > 3:
                n = len(self.r[0].a[a[1]])
                if not 0 <= int(a[3]) < n + (a[2] == "ins"):
                    return "E"
            if self.cpp and cmd == "seq" and a[2] == "pop" and not self.r[0].a[a[1]]:
                return "E"
            return getattr(self, "c_" + cmd)(*a)
        except (IndexError, ValueError) as e:
            return "E:" + type(e).__name__


def explore(ctx, lang, name):
    x = PyAst() if lang == "python" else CppAst()
    root, attr, kind, els = SHAPES[name]
    M, Q = mutations(els, attr, kind, lang), reads(els, attr, lang)
    depth = 2 if ctx.tier == "quick" else 3
    seen = set()
    front = [[tuple(tok(kind, c) if t == "%s" else t for t in root)] for n in range(4) for c in itertools.product(els[:2] if n == 3 else els, repeat=n)]
    k = "%s: %s of %s" % (lang, attr, root[2])

    def replay(hist, more):
        """Runs history and further commands, checks the results of the latter."""
        ref = R()
        ref.cpp = lang == "c++"
        cmds = SETUP + hist + more
        got = run(x, cmds)
        want = [ref.do(*c) for c in cmds]
        ctx.transitions += len(cmds)
        ctx.execs += 1
        for c, g, w in list(zip(cmds, got, want))[len(SETUP):]:
            if g != w:
                ctx.journal("%s %r then %r" % (lang, hist, c))
                ctx.fail(k + " " + (c[3] if c[0] == "seq" else c[0]), "%r after %r: got %r, expected %r" % (c, hist, g, w))
                return None
        return ref

    for d in range(depth + 1):
        nxt = []
        for h in front:
            ctx.journal("%s %r" % (lang, h))
            ref = replay(h, [c for c in Q if d < 2 or ctx.tier == "thorough" or c[3] not in ("sl", "slsl") or c[4] in SL2[:6]] + [("dump", "0"), ("dump", "12"), ("dump", "10")])
            if ref is None:
                return
            key = ref.r[0].dump()
            if key in seen:
                continue
            seen.add(key)
            ctx.state(key)
            if d == depth:
                continue
            for m in M:
                ref = replay(h, [m, ("dump", "0"), ("seq", "0", attr, "iter"), ("seq", "0", attr, "len")])
                if ref is None:
                    continue
                if ref.r[0].dump() not in seen:
                    nxt.append(h + [m])
        front = []
        new = set()
        for h in nxt:
            ref = R()
            ref.cpp = lang == "c++"
            for c in SETUP + h:
                ref.do(*c)
            s = ref.r[0].dump()
            if s not in new:
                new.add(s)
                front.append(h)


def views(ctx, names):
    """Slice views kept while the sequence under them changes, and sequences kept while their tree does."""
    import clingo.ast as A

    x = PyAst()
    for name in names:
        root, attr, kind, els = SHAPES[name]
        sh = (lambda v: x.dump(v)) if kind == "N" else (lambda v: v)
        muts = [lambda l, v: l.append(v), lambda l, v: l.pop(), lambda l, v: l.insert(0, v), lambda l, v: l.pop(0), lambda l, v: l.clear(), lambda l, v: l.reverse(), lambda l, v: l.insert(1, v), lambda l, v: l.extend([v, v])]
        for n in range(4):
            for s in SLT + [None]:
                for hist in itertools.product(range(len(muts)), repeat=2 if ctx.tier == "thorough" or s in SL2 or s is None else 1):
                    ctx.journal("python view %s of %s length %d changes %r" % (s, name, n, hist))
                    ctx.execs += 1
                    run(x, SETUP)
                    run(x, [tuple(tok(kind, (els * 2)[:n]) if t == "%s" else t for t in root)])
                    seq = getattr(x.r[0], attr)
                    lst = [x.val(e) for e in (els * 2)[:n]]
                    sl = slice(None) if s is None else slice(*[None if y == "" else int(y) for y in s.split(":")])
                    view = seq if s is None else seq[sl]
                    for m in hist:
                        for l in (seq, lst):
                            try:
                                muts[m](l, x.val(els[0]))
                                r = ""
                            except IndexError:
                                r = "E"
                            if l is seq:
                                want = r
                        ctx.transitions += 1
                        ctx.eq("view: changes", r, want, "")
                        w = [sh(v) for v in lst[sl]]
                        ctx.eq("python: view of a changed sequence", [sh(v) for v in view], w, "")
                        ctx.eq("python: view of a changed sequence", len(view), len(w), "length")
                        ctx.eq("python: view of a changed sequence", [sh(view[i]) for i in range(-len(w), len(w))], w + w, "positions")
                        ctx.eq("python: view of a changed sequence", [sh(v) for v in reversed(view)], w[::-1], "reversed")
                        ctx.eq("python: fresh sequence of the tree", [sh(v) for v in getattr(x.r[0], attr)], [sh(v) for v in lst], "")
                        ctx.eq("python: text of a view", (str(view), repr(view)), (str(lst[sl]), repr(lst[sl])), "")
                    del x.r[0]
                    ctx.eq("python: sequence of a dropped tree", [sh(v) for v in seq], [sh(v) for v in lst], "")
    # equality, order and hash of node sequences follow tuples
    run(x, SETUP)
    a, b, c = x.r[10], x.r[11], x.r[13]
    lists = [list(p) for n in range(3) for p in itertools.product((a, b, c), repeat=n)]
    fs = [A.Function(x.pyloc(astlib.LOCS[0]), "f", l, 0).arguments for l in lists]
    for l, f in zip(lists, fs):
        for m, g in zip(lists, fs):
            ctx.execs += 1
            for other, o in ((g, m), (m, m), (tuple(m), m)):
                ctx.eq("python: equality of node sequences", f == other, tuple(l) == tuple(o), "")
            ctx.eq("python: equality of node sequences", f != g, tuple(l) != tuple(m), "")
            ctx.eq("python: order of node sequences", f < g, tuple(l) < tuple(m), "")
            ctx.check(hash(f) == hash(g) or l != m, "python: hash of node sequences", "")
    for f, l in zip(fs, lists):
        for bad in (lambda: f["x"], lambda: f.__setitem__(0, 1), lambda: f.insert(0, 1), lambda: f.append(None), lambda: f.__setitem__(slice(0, 1), [a]), lambda: f.__delitem__(slice(0, 1))):
            try:
                bad()
                ctx.fail("python: ill-typed operation on a sequence accepted", "")
            except (TypeError, AttributeError, IndexError):
                pass
            ctx.eq("python: ill-typed operation changes the sequence", list(f), l, "")


SIZES = list(range(4, 18)) + [31, 32, 33, 63, 64, 65, 128, 129, 256, 257, 300]


def wide(ctx, lang):
    """Sequences of every size, grown and built at once, with operations at and around the ends and the middle."""
    x = PyAst() if lang == "python" else CppAst()
    for name in SHAPES:
        root, attr, kind, els = SHAPES[name]
        for n in SIZES:
            new = lambda l: tuple(tok(kind, l) if t == "%s" else t for t in root)
            full = (els * n)[:n]
            pos = sorted({-n - 1, -n, -n + 1, -(n // 2), -1, 0, 1, n // 2, n - 2, n - 1, n, n + 1})
            q = [("seq", "0", attr) + o for o in [("len",), ("iter",), ("riter",)] + [("get", p) for p in pos]]
            if lang == "python":
                q += [("seq", "0", attr) + o for o in [(o, e) for o in ("idx", "cnt", "in") for e in els] + [("sl", "%s:%s:%s" % z) for z in itertools.product(("", 1, n // 2, -1), ("", n // 2, n, -2), ("", 1, 3, -1, -n + 1))]]
            q.append(("dump", "0"))
            for build in ([new(full)], [new([])] + [("seq", "0", attr, "app", e) for e in full], [new([])] + [("seq", "0", attr, "ins", k // 2, e) for k, e in enumerate(full)]):
                ctx.journal("%s %s of size %d" % (lang, name, n))
                ctx.execs += 1
                ctx.state((lang, name, n, len(build)))
                cmds = SETUP + build + q
                for p in pos:
                    cmds += [("seq", "0", attr, o, p) + (() if o in ("del", "pop") else (els[1],)) for o in ("ins", "set", "del", "pop", "ins", "ins")] + [("seq", "0", attr, "len")]
                cmds += [("dump", "0"), ("copy", "1", "0"), ("deep", "2", "0"), ("seq", "0", attr, "app", els[0]), ("seq", "0", attr, "pop", 0), ("dump", "1"), ("dump", "2"), ("seq", "0", attr, "clear"), ("dump", "0"), ("dump", "2")]
                ref = R()
                ref.cpp = lang == "c++"
                ctx.transitions += len(cmds)
                for c, g in zip(cmds, run(x, cmds)):
                    w = ref.do(*c)
                    if g != w:
                        ctx.fail("%s: %s of %s %s" % (lang, attr, root[2], c[3] if c[0] == "seq" else c[0]), "%r with %d elements: got %r, expected %r" % (c, n, g, w))
                        break


def tasks(tier):
    out = [Py("views", [s], lib=x, name="views-%s-%s" % (s, x)) for x in ("eng", "sys") for s in SHAPES if x == "eng" or tier == "thorough" or s == "function"]
    out += [Py("wide", l, lib=b, name="wide-%s-%s" % (l, b)) for l in ("python", "c++") for b in ("eng", "sys")]
    for lib in ("eng", "sys"):
        for s in SHAPES if lib == "eng" or tier == "thorough" else ("function", "operators"):
            out += [Py("explore", l, s, lib=lib, name="%s-%s-%s" % (s, l, lib)) for l in ("python", "c++")]
    return out
