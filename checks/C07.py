"""C07: backend statements mean what the same statements mean in a program, and reach observers as given."""
import itertools

import asp
import checks.solvelib as sl
from vplib import Py

PID = "C07"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of backend statement sequences against the stable-model semantics and the statements' own values"
NOTE = "All sequences of up to two statements (thorough: three over a reduced alphabet) from an alphabet of about 60 backend statements with boundary arguments, with each optional argument given or left out, on three base programs, in one and in two backend sessions, in Python, C++ and Lua; statements with every number of atoms, literals and terms up to 24 and around powers of two up to 300; theory statements with all term kinds and guards against their theory atoms and observed values."
RULE = ""
BUILD = ["sys/py/_clingo.so", "sys/lua/clingo.so", "sys/drv/icpp", "eng/py/_clingo.so", "eng/lua/clingo.so", "eng/drv/icpp"]
ASSUMPTIONS = ["the reference semantics in lib/asp.py"]

BASES = ["", "{b}. c:-b.", "b. #external a."]
ATOMS = "atom a a;atom b b;atom c f(1);atom x"
VIS = {"a": "a", "b": "b", "c": "f(1)", "x": "%x"}
J = lambda s: ",".join(s) or "."


def L(s):
    return tuple((VIS[x.lstrip("-")], not x.startswith("-")) for x in s)


def R(h, b, ch):
    h, b = h.split(), b.split()
    t = "rule " + J(h) + ("" if ch is None and not b else " " + J(b)) + ("" if ch is None else " %d" % ch)
    return t, ("rule", bool(ch), tuple(VIS[x] for x in h), L(b)), "rule %d %s %s" % (bool(ch), ids(h), ids(b))


def W(h, lo, w, ch):
    h = h.split()
    w = [x.split("=") for x in w.split()]
    t = "wrule %s %d %s" % (J(h), lo, J("=".join(x) for x in w)) + ("" if ch is None else " %d" % ch)
    els = tuple(L([x]) [0] + (int(y),) for x, y in w)
    return t, ("rule", bool(ch), tuple(VIS[x] for x in h), (("sum", lo, els),)), "weight_rule %d %s %d %s" % (bool(ch), ids(h), lo, wids(w))


def MI(p, w):
    w = [x.split("=") for x in w.split()]
    return "min %d %s" % (p, J("=".join(x) for x in w)), ("min", p, tuple(L([x])[0] + (int(y),) for x, y in w)), "minimize %d %s" % (p, wids(w))


def ids(s):
    return "[" + ",".join("@" + x for x in s) + "]"


def wids(w):
    return "[" + ",".join("[@%s,%s]" % (x, y) for x, y in w) + "]"


def EX(a, v):
    return "ext " + a + ("" if v is None else " " + v), ("ext", VIS[a], v or "f"), "external @%s %s" % (a, {"t": "True", "f": "False", "u": "Free", "r": "Release", None: "False"}[v])


def AS(l):
    l = l.split()
    return "assume " + J(l), ("assume", L(l)), "assume " + ids(l)


def PR(l):
    l = l.split()
    return "proj " + J(l), ("proj", tuple(VIS[x] for x in l)), "project " + ids(l)


def ED(u, v, l):
    l = l.split()
    return "edge %d %d %s" % (u, v, J(l)), ("edge", u, v, L(l)), "acyc_edge %d %d %s" % (u, v, ids(l))


def HE(a, t, bi, pr, l):
    l = l.split()
    return "heu %s %s %d %d %s" % (a, t, bi, pr, J(l)), ("heu",), "heuristic @%s %s %d %d %s" % (a, t.capitalize(), bi, pr, ids(l))


ALPHA = [
    R("", "a", None), R("", "", 0), R("", "-a b", 0), R("a", "", None), R("a", "", 1), R("a b", "", None), R("a b", "", 1), R("a b c", "x", 0), R("b", "-a", None), R("a", "-b", 0),
    R("a", "b", None), R("b", "a", 0), R("c", "a -b", None), R("x", "", 1), R("x", "-a", None), R("c", "x", None), R("a", "-x", 1), R("c", "-c -a", 0), R("b", "a a", 1),
    W("c", 1, "a=1 b=1", None), W("c", 2, "a=1 -b=1", 0), W("c", 3, "a=2 b=1 x=1", None), W("", 2, "a=1 b=1", None), W("a b", 0, "", 0), W("a b", 0, "c=1", 1), W("c", -1, "a=1", None),
    W("c", 5, "a=1", 0), W("b", 1, "x=1 -x=1", 1), W("c", 2, "a=1 a=1", None), W("x", 2147483647, "a=2147483646 b=1", None),
    MI(0, "a=1 b=2"), MI(-1, "-a=3"), MI(7, "a=-2 x=1"), MI(0, ""), MI(0, "c=1 c=1"), MI(-2147483647, "b=1"), MI(2147483646, "b=-5"),
    EX("a", None), EX("a", "t"), EX("a", "f"), EX("a", "u"), EX("a", "r"), EX("b", "t"), EX("x", "u"), EX("x", None),
    AS(""), AS("a"), AS("-a"), AS("b -c"), PR(""), PR("a"), PR("a b"), PR("c"),
    ED(0, 1, "a"), ED(1, 0, "b"), ED(1, 1, "-a"), ED(2, 1, ""),
    HE("a", "level", -3, 1, "b"), HE("b", "sign", 1, 0, ""), HE("c", "factor", 2147483647, 5, "a -b"), HE("a", "init", -2147483648, 2, "-x"), HE("x", "true", 10, 4294967295 // 2, ""), HE("b", "false", 1, 3, "a b"),
]
LUA = ("rule", "wrule", "min", "ext")


def parse_models(ev):
    """Multiset of models with their costs."""
    r = []
    for m in sl.models(ev) if ev and "|" not in ev[0] else []:
        r.append((m, ""))
    if not r:
        for e in ev:
            if e[0] == "M":
                f = e[1:].split("|")
                r.append((f[0], f[3]))
    return sorted(r)


def expected(P):
    # clasp drops empty minimize statements from the output of costs?  priorities without literals have cost 0
    out = []
    for X in asp.stable(P):
        c = asp.cost(P, X)
        out.append((",".join(sorted(a for a in X if a[0] != "%")), ",".join(str(c[p]) for p in sorted(c, reverse=True))))
    return sorted(out)


def proj(P, X):
    at = {a for s in P if s[0] == "proj" for a in s[1]}
    return frozenset(a for a in X if a in at)


class Do:
    def __init__(self, ctx, lang, lib):
        self.ctx = ctx
        self.it = sl.Interp(ctx, lang)
        self.k = "%s %s" % (lang, lib)
        self.lib = lib
        self.obs = lang != "lua"

    def run(self, base, parts, extra=""):
        """parts: lists of alphabet entries, one backend session each."""
        ctx, it, k = self.ctx, self.it, self.k
        st = [s for p in parts for s in p]
        rel = [s[0].split(" ")[1] for s in st if s[1][0] == "ext" and s[1][2] == "r"]
        if any(s[1][0] == "ext" and s[1][2] != "r" and s[0].split(" ")[1] in rel for s in st):
            return  # (what an assignment after a release means is up to C03)
        heads = {a for s in list(asp.parse(base)) + [s[1] for s in st] if s[0] == "rule" for a in s[2]}
        if any(s[1][0] == "ext" and s[1][2] in "tu" and s[1][1] in heads for s in st):
            return  # (whether a rule that cannot apply defines an external depends on the simplifications of the solver)
        ctx.journal("%s %r %s %s" % (k, base, [s[0] for s in st], extra))
        ctx.execs += 1
        ctx.nontrivial += 1
        P = list(asp.parse(base)) + [s[1] for s in st if s[1][0] != "heu"]
        hasmin = any(s[0] == "min" for s in P)
        it.do("reset")
        it.ok("new", "0 --opt-mode=enum" + (" --heuristic=Domain" if any(s[1][0] == "heu" for s in st) and self.lib == "sys" else "") + extra)
        if self.obs:
            it.ok("obs", "_", "init_program,begin_step,end_step")
        it.ok("add", "base", "", base)
        it.ok("ground", "base")
        if self.obs:
            before = it.do("obslog")
        r = it.ok("be", ATOMS)
        if r.startswith("E:"):
            return
        V = dict(zip("abcx", r.split()))
        for p in parts:
            ctx.transitions += len(p)
            # asking for the same symbol gives the same atom
            r = it.ok("be", ";".join(["atom a2 a"] + [s[0] for s in p] + ["atom c2 f(1)"]))
            ctx.eq(k + ": atom of a symbol", r, V["a"] + " " + V["c"], "add_atom of a known symbol")
        it.do("level", "f" if hasmin else "b", "")
        ev = it.solve("c")
        if ev is None:
            return
        want = expected(P)
        if extra:
            w2 = sorted({k_: 1 for k_ in (asp.key(proj(P, X)) for X in asp.stable(P))})
            at = {a for s in P if s[0] == "proj" for a in s[1]}
            got = sorted(",".join(sorted(a for a in asp.split(m, ",") if a in at)) for m, _ in parse_models(ev))
            ctx.eq(k + ": projected models", got, w2, base)
        else:
            got = parse_models(ev)
            if not hasmin:
                got = [(m, "") for m, _ in got]
                want = [(m, "") for m, _ in want]
            ctx.eq(k + ": models", got, want, base)
        ctx.state((base, tuple(want)))
        if self.obs:
            log = it.do("obslog").split("\x01")
            kinds = {s[2].split(" ")[0] for s in ALPHA}
            log = [e for e in log if e.split(" ")[0] in kinds]
            w = []
            for s in st:
                w.append(" ".join(self.sub(t, V) for t in s[2].split(" ")))
            # atoms that are facts of the base program are defined when they are asked for
            facts = ["rule 0 [%s] []" % V[v] for v in VIS if VIS[v] in asp.atoms_of(P) and ("rule", False, (VIS[v],), ()) in asp.parse(base)]
            log2 = log[:]
            if log2 != w:
                for f in facts:
                    if f in log2:
                        log2.remove(f)
            ctx.check(log == w or log2 == w, k + ": observed statements", "observed %s, expected %s [%s]" % (log, w, ctx.cur))

    def sub(self, t, V):
        for v in V:
            t = t.replace("@-" + v, "-" + V[v]).replace("@" + v, V[v])
        return t


def seqs(ctx, lang, lib, i, n):
    d = Do(ctx, lang, lib)
    al = [s for s in ALPHA if lang != "lua" or s[0].split(" ")[0] in LUA]
    for s in sl.chunks(al, i, n):
        for b in BASES:
            d.run(b, [[s]])
        for t in al:
            for b in BASES if lib == "sys" else BASES[:1]:
                d.run(b, [[s, t]])
            if lib == "sys":
                if (s[1][0], t[1][0]) != ("rule", "rule"):
                    d.run(BASES[1], [[s], [t]])
                if "proj" in (s[1][0], t[1][0]) and t[1][0] in ("rule", "proj", "ext"):
                    d.run(BASES[1], [[s, t]], " --project=project")
        if lib == "sys":
            sm = al if ctx.tier == "thorough" else al[::3]
            for t in sm if s in sm else ():
                for u in sm:
                    d.run("", [[s, t, u]])
    d.it.i.close()


# ---- theory
class T:
    def __init__(self, tok, txt, show):
        self.tok, self.txt, self.show = tok, txt, show


def term(name, V):
    """Expected view of the theory terms below."""
    return TERMS[name][1]


TERMS = {  # name: (statement, view)
    "n": ("tn n -3", "Nu-3<(-3)>"),
    "m": ("tn m 2147483647", "Nu2147483647<2147483647>"),
    "s": ("ts s f", "Sy'f'<f>"),
    "e": ("ts e g", "Sy'g'<g>"),
    "q": ('ts q "x"', "Sy'\"x\"'<\"x\">"),
    "f": ("tf f g n,s", "Fu'g'(Nu-3<(-3)> Sy'f'<f>)<g((-3),f)>"),
    "t": ("tq t Tuple n,s", "Tu(Nu-3<(-3)> Sy'f'<f>)<((-3),f)>"),
    "u": ("tq u Set s", "Se(Sy'f'<f>)<{f}>"),
    "v": ("tq v List n,n", "Li(Nu-3<(-3)> Nu-3<(-3)>)<[(-3),(-3)]>"),
    "o": ("tq o Tuple .", "Tu()<()>"),
    "w": ("tq w Tuple s", "Tu(Sy'f'<f>)<(f,)>"),
    "y": ('ty y h(1,k)', "Fu'h'(Nu1<1> Sy'k'<k>)<h(1,k)>"),
    "z": ("ty z 5", "Nu5<5>"),
    "a": ("ty a (1,k)", "Tu(Nu1<1> Sy'k'<k>)<(1,k)>"),
    "b": ('ty b "st"', "Sy'\"st\"'<\"st\">"),
}
NAMES = list(TERMS)


def theory(ctx, lang):
    d = Do(ctx, lang, "eng")
    it, k = d.it, d.k + " theory"
    elems = [("", ""), ("n", ""), ("s,n", "a"), ("f", "-b"), ("t,u", "a,-b"), ("y", "x"), ("v,o,w", "b,a")]
    guards = [None] + [("<=", x) for x in ("n", "y", "t")] + [("=", "s")]
    cases = []
    for t in ("s", "e", "f", "y"):
        for es in [()] + [(i,) for i in range(7)] + [(1, 2), (6, 3), (0, 5)]:
            for g in guards:
                for at in ("_", "0", "a", "new"):
                    cases.append((t, es, g, at))
    for x in NAMES:
        cases.append(("s", "t" + x, None, "a"))
        cases.append(("s", (), ("<", x), "0"))
    for t, es, g, at in cases:
        ctx.journal("%s theory %s %s %s %s" % (lang, t, es, g, at))
        ctx.execs += 1
        ctx.nontrivial += 1
        it.do("reset")
        it.ok("new", "0")
        it.ok("obs", "_", "init_program,begin_step,end_step,output_atom")
        it.ok("be", ATOMS + ";rule a,b . 1;rule x . 1")
        V = dict(zip("abcx", it.do("be", ATOMS.rpartition(";")[0]).split()))
        V["x"] = str(int(V["c"]) + 1)
        if isinstance(es, str):
            el = [(es[1], "a")]
        else:
            el = [elems[j] for j in es]
        need = [x for x in ([t] + [y for e in el for y in e[0].split(",") if y] + ([g[1]] if g else []))]
        need += [y for x in need for y in ("n", "s")]
        # terms are named with a prefix to tell them from atoms
        stm = []
        for x in NAMES:
            if x in need:
                f = TERMS[x][0].split(" ")
                f[1] = "T" + f[1]
                if f[0] in ("tf", "tq"):
                    f[3] = ",".join("T" + y for y in f[3].split(",") if y != ".") or "."
                stm.append(" ".join(f))
        pt = lambda s: ",".join("T" + y for y in s.split(",") if y) or "."
        for j, (ts, co) in enumerate(el):
            stm.append("te E%d %s %s" % (j, pt(ts), co or "."))
        E = ",".join("E%d" % j for j in range(len(el))) or "."
        fresh = at == "new"
        a6 = "" if at == "_" or fresh else " " + at
        stm.append("ta A T%s %s%s" % (t, E, " %s T%s" % g if g else (" _ _" if a6 else "")) + a6)
        r = it.ok("be", ";".join(stm))
        if r.startswith("E:"):
            continue
        rv = r.split()
        aid = {"_": None, "new": None, "0": "0", "a": V["a"]}[at]
        if aid is None:
            ctx.check(int(rv[-1]) > int(V["x"]), k + ": new atom", rv[-1])
            aid = rv[-1]
        ctx.eq(k + ": returned atom", rv[-1], aid, at)
        ctx.transitions += len(stm)
        # the view
        th = it.do("theory")
        it.solve("c")
        lit = lambda c: ",".join(("-" if y[0] == "-" else "") + V[y.lstrip("-")] for y in c.split(",") if y)
        if th.startswith("E:"):
            ctx.fail(k + ": theory atoms", th + " [%s]" % ctx.cur)
            continue
        vw = lambda x: TERMS[x][1]
        pieces = vw(t) + "{" + "; ".join(",".join(vw(y) for y in ts.split(",") if y) + ":" + lit(co) for ts, co in sorted_el(el)) + "}|"
        if g:
            pieces += g[0] + "|" + vw(g[1]) + "|"
        pieces += aid
        got = strip(th)
        ctx.eq(k + ": theory atoms", got, norm(pieces), str(stm))
        ctx.state(pieces)
        # literals of conditions have the value of their conjunction; observed statements resolve to the same atom
        res = resolve(it.do("obslog").split("\x01"), V)
        ctx.eq(k + ": observed theory atom", norm(res[0]) if len(res) == 1 else res, norm(pieces), str(stm))
    it.i.close()


def sorted_el(el):
    return el


def strip(s):
    """The view without texts of elements and atoms, condition ids, with elements sorted."""
    import re

    i = s.index("{", s.index("<"))
    # elements are separated by "; "; each ends with :id<text>
    head, rest = split_head(s)
    els, tail = split_elems(rest)
    tail = tail.lstrip("|")
    out = []
    for e in els:
        m = re.match(r"^(.*):(-?[0-9,-]*):(-?\d+)<.*>$", e)
        out.append(m.group(1) + ":" + ",".join(sorted(m.group(2).split(","))))
    m = re.match(r"^((?:[^|]*\|.*\|)?)(-?\d+)<[^|]*$", tail)
    return head + "{" + "; ".join(sorted(out)) + "}|" + m.group(1) + m.group(2)


def split_head(s):
    """The view of the term and what follows it."""
    d = 0
    for i, c in enumerate(s):
        if c == "<":
            # texts do not contain < or >
            j = s.index(">", i)
            if d == 0:
                return s[: j + 1], s[j + 1 :]
        elif c == "(":
            if not inside(s, i):
                d += 1
        elif c == ")":
            if not inside(s, i):
                d -= 1
    raise AssertionError(s)


def inside(s, i):
    """Is position i inside a text <...>?"""
    return s.rfind("<", 0, i) > s.rfind(">", 0, i)


def split_elems(s):
    assert s[0] == "{", s
    d, cur, out = 0, "", []
    i = 1
    while True:
        c = s[i]
        if c == "<":
            # texts of elements contain terms in braces but no angle brackets
            j = s.index(">", i)
            cur += s[i : j + 1]
            i = j + 1
            continue
        if c == "}" and d == 0:
            if cur:
                out.append(cur)
            return out, s[i + 1 :]
        if c == ";" and d == 0:
            out.append(cur)
            cur = ""
            i += 2
            continue
        d += (c in "(") - (c in ")")
        cur += c
        i += 1


def norm(p):
    head, rest = split_head(p)
    els, tail = split_elems(rest)
    out = []
    for e in els:
        a, _, b = e.rpartition(":")
        out.append(a + ":" + ",".join(sorted(b.split(","))))
    return head + "{" + "; ".join(sorted(out)) + "}" + tail


def resolve(log, V):
    """Theory atoms described by the observed statements."""
    t, e, out = {}, {}, []
    L = lambda s: [x for x in s.strip("[]").split(",") if x]

    def view(i):
        k = t[i]
        if k[0] == "n":
            n = "(%s)" % k[1] if k[1][0] == "-" else k[1]
            return ("Nu%s<%s>" % (k[1], n), n)
        if k[0] == "s":
            return ("Sy'%s'<%s>" % (k[1], k[1]), k[1])
        a = [view(x) for x in k[2]]
        ar = " ".join(x[0] for x in a)
        tx = ",".join(x[1] for x in a)
        if int(k[1]) >= 0:
            n = view(k[1])[1]
            if all(c in "!<=>+-*/\\?&@|:;~^." for c in n) and 1 <= len(a) <= 2:
                o = "(" + (n if len(a) == 1 else a[0][1] + n) + a[-1][1] + ")"
                return ("Fu'%s'(%s)<%s>" % (n, ar, o), o)
            return ("Fu'%s'(%s)<%s(%s)>" % (n, ar, n, tx), "%s(%s)" % (n, tx))
        ty, l, r = {"-1": ("Tu", "(", ")"), "-2": ("Se", "{", "}"), "-3": ("Li", "[", "]")}[k[1]]
        if ty == "Tu" and len(a) == 1:
            tx += ","
        return ("%s(%s)<%s%s%s>" % (ty, ar, l, tx, r), l + tx + r)

    for s in log:
        f = s.split(" ")
        if f[0] == "theory_term_number":
            t[f[1]] = ("n", f[2])
        elif f[0] == "theory_term_string":
            t[f[1]] = ("s", " ".join(f[2:]))
        elif f[0] == "theory_term_compound":
            t[f[1]] = ("c", f[2], L(f[3]))
        elif f[0] == "theory_element":
            e[f[1]] = (L(f[2]), L(f[3]))
        elif f[0] in ("theory_atom", "theory_atom_with_guard"):
            s = view(f[2])[0] + "{" + "; ".join(",".join(view(x)[0] for x in e[y][0]) + ":" + ",".join(e[y][1]) for y in L(f[3])) + "}|"
            if f[0] != "theory_atom":
                s += t[f[4]][1] + "|" + view(f[5])[0] + "|"
            out.append(s + f[1])
    return out


def keywords(ctx, lib):
    """Arguments of backend calls in Lua by position, by name, repeated and missing."""
    it = sl.Interp(ctx, "lua")
    ctx.journal("lua %s arguments of the backend" % lib)
    ctx.execs += 20
    it.do("reset")
    it.ok("new", "0")
    ctx.eq("lua %s: arguments by position and by name" % lib, it.do("bekw"), "1" * 7 + "|" + "0" * 13, "1: accepted, 0: rejected")
    evs = it.solve("c")
    if evs:
        want = sorted(asp.key(X) for X in asp.stable(asp.parse("{a;b;c}. x:-a,not b. x:-b,c. y:-2{a;b;c}. {z}:-c.".replace("2{a;b;c}", "a,b. y:-a,c. y:-b,c"))))
        ctx.eq("lua %s: models of statements with arguments by position and by name" % lib, sorted(sl.models(evs[:-1])), want, "models")
    it.i.close()


SIZES = list(range(1, 25)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]


def wide(ctx, lang, lib):
    """Statements with every number of atoms, literals and terms."""
    d = Do(ctx, lang, lib)
    it, k = d.it, d.k + " wide"
    for n in SIZES:
        N = range(1, n + 1)
        for assume in (0, 1) if lang != "lua" else (0,):
            ctx.journal("%s %d %d" % (k, n, assume))
            ctx.execs += 1
            ctx.nontrivial += 1
            it.do("reset")
            it.ok("new", "0 --opt-mode=enum")
            it.ok("obs", "_", "init_program,begin_step,end_step,output_atom")
            r = it.ok("be", ";".join("atom x%d a(%d)" % (i, i) for i in N) + ";atom h h;atom w w;atom v v;atom d d")
            if r.startswith("E:"):
                continue
            *x, h, w, v, dd = r.split()
            al, neg = ",".join(x), ",".join("-" + y for y in x)
            X, NX = ",".join("x%d" % i for i in N), ",".join("-x%d" % i for i in N)
            ws = lambda f: ",".join("x%d=%d" % (i, f(i)) for i in N)
            ow = lambda f, s="": "[" + ",".join("[%s%s,%d]" % (s, y, f(i)) for i, y in zip(N, x)) + "]"
            T = n * (n + 1) // 2
            S = ["rule x1 . 1"] + ["rule x%d x%d" % (i, i - 1) for i in N[1:]]
            E = ["rule 1 [%s] []" % x[0]] + ["rule 0 [%s] [%s]" % (x[i - 1], x[i - 2]) for i in N[1:]]
            S += ["rule h " + X, "wrule w %d %s" % (T, ws(lambda i: i)), "wrule v 1 " + ",".join("-x%d=1" % i for i in N), "rule d,%s x%d" % (X, n), "min 2 " + ws(lambda i: i - 2)]
            E += ["rule 0 [%s] [%s]" % (h, al), "weight_rule 0 [%s] %d %s" % (w, T, ow(lambda i: i)), "weight_rule 0 [%s] 1 %s" % (v, ow(lambda i: 1, "-")), "rule 0 [%s,%s] [%s]" % (dd, al, x[-1]), "minimize 2 " + ow(lambda i: i - 2)]
            if lib == "eng" and n > 20:  # (the engine of this check has no large disjunctive programs)
                S.pop(-2)
                E.pop(-2)
            if lang != "lua":
                S += ["proj " + X, "edge 3 4 " + X, "edge 5 6 " + NX, "heu x1 level 7 8 " + X, "heu h sign -1 2 " + NX] + (["assume " + X] if assume else [])
                E += ["project [%s]" % al, "acyc_edge 3 4 [%s]" % al, "acyc_edge 5 6 [%s]" % neg, "heuristic %s Level 7 8 [%s]" % (x[0], al), "heuristic %s Sign -1 2 [%s]" % (h, neg)] + (["assume [%s]" % al] if assume else [])
            it.ok("be", ";".join(S))
            it.do("level", "f", "")
            ev = it.solve("c")
            if ev is None:
                continue
            A = ["a(%d)" % i for i in N]
            full = ",".join(sorted(A + ["h", "w"]))
            want = [(full, str(T - 2 * n))] + ([] if assume else [("v", "0")])
            ctx.eq(k + ": models", parse_models(ev), sorted(want), "size %d" % n)
            ctx.state((n, tuple(want)))
            log = [e for e in it.do("obslog").split("\x01") if e]
            for a, b in itertools.zip_longest(log, E):
                ctx.eq(k + ": observed statements", a, b, "size %d" % n)
                ctx.transitions += 1
        if lang == "lua" or lib == "sys":
            continue
        # theory terms and elements
        ctx.journal("%s theory %d" % (k, n))
        ctx.execs += 1
        it.do("reset")
        it.ok("new", "0")
        it.ok("obs", "_", "init_program,begin_step,end_step,output_atom")
        S = ["atom x%d a(%d)" % (i, i) for i in N] + ["rule %s . 1" % ",".join("x%d" % i for i in N)]
        S += ["tn n%d %d" % (i, i) for i in N] + ["ts s f"]
        ns = ",".join("n%d" % i for i in N)
        S += ["tq t Tuple " + ns, "tf g g " + ns, "te e0 %s %s" % (ns, ",".join("x%d" % i for i in N))] + ["te e%d n%d x%d" % (i, i, i) for i in N]
        S += ["ta A s %s = t 0" % ",".join("e%d" % i for i in range(n + 1)), "ta B g e0 _ _ 0"]
        it.ok("be", ";".join(S))
        th = it.do("theory2")
        it.do("level", "b", "")
        import json

        num = [["Number", str(i), i, []] for i in N]
        cm = ",".join(str(i) for i in N)
        g = ["Function", "g(%s)" % cm, "g", num]
        tu = ["Tuple", "(%s%s)" % (cm, "," if n == 1 else ""), "", num]
        if ctx.check(th[0] == "[", k + ": theory", th):
            got = sorted(([a[0], sorted([e[0], len(e[1])] for e in a[1]), a[2]] for a in json.loads(th)), key=str)
            want = sorted(([["Symbol", "f", "f", []], sorted([[num, n]] + [[[x], 1] for x in num]), ["=", tu]], [g, [[num, n]], []]), key=str)
            ctx.eq(k + ": theory atoms", got, want, "size %d" % n)
    it.i.close()


INTER = [
    "1 0 1 3 0 2 1 -2", "1 1 2 3 4 0 1 -1", "1 0 2 3 4 0 0", "1 0 0 0 2 1 2", "1 0 1 3 1 2 2 1 1 2 2", "1 1 1 4 1 1 2 1 1 -2 3", "1 0 0 1 3 2 1 2 2 1",
    "2 0 2 1 1 2 2", "2 -1 1 -1 3", "2 1 1 1 -7", "3 1 1", "3 2 1 2", "5 3 0", "5 3 1", "5 3 2", "5 4 3", "6 1 1", "6 2 -1 2",
    "7 0 1 2 3 0", "7 1 2 -1 0 1 -1", "7 2 1 1 1 2 2 2", "7 3 1 -5 9 0", "7 4 2 1 2 1 1", "7 5 2 1 2 1 1", "8 0 1 1 1", "8 1 0 2 -1 2", "8 2 2 0",
    "4 1 c 1 3", "4 4 d(1) 1 4",
    "9 0 0 -3\n9 1 1 1 f\n9 2 2 1 2 0 0\n9 4 0 2 2 0 1 1\n9 5 3 1 1 0", "9 1 0 1 g\n9 0 1 7\n9 2 2 -1 1 1\n9 1 3 1 =\n9 6 5 0 0 3 2",
]


def event(s):
    """The event of an observer for a statement; None for output statements."""
    L = lambda x: "[" + ",".join(map(str, x)) + "]"
    W = lambda x: "[" + ",".join("[%d,%d]" % y for y in x) + "]"
    k = s[0]
    if k == "rule":
        c = "01"[s[1] == "choice"]
        if s[3][0] == "normal":
            return "rule %s %s %s" % (c, L(s[2]), L(s[3][1]))
        return "weight_rule %s %s %d %s" % (c, L(s[2]), s[3][2], W(s[3][1]))
    if k == "minimize":
        return "minimize %d %s" % (s[1], W(s[2]))
    if k in ("project", "assume"):
        return "%s %s" % (k, L(s[1]))
    if k == "external":
        return "external %d %s" % (s[1], s[2].capitalize())
    if k == "heuristic":
        return "heuristic %d %s %d %d %s" % (s[1], {"true": "True", "false": "False"}.get(s[2], s[2].capitalize()), s[3], s[4], L(s[5]))
    if k == "edge":
        return "acyc_edge %d %d %s" % (s[1], s[2], L(s[3]))
    if k == "theory_number":
        return "theory_term_number %d %d" % s[1:]
    if k == "theory_string":
        return "theory_term_string %d %s" % s[1:]
    if k in ("theory_function", "theory_sequence"):
        return "theory_term_compound %d %d %s" % (s[1], {"tuple": -1, "set": -2, "list": -3}.get(s[2], s[2]), L(s[3]))
    if k == "theory_element":
        return "theory_element %d %s %s" % (s[1], L(s[2]), L(s[3]))
    if k == "theory_atom":
        return "theory_atom%s %d %d %s" % ("_with_guard" if len(s) > 4 else "", s[1], s[2], L(s[3])) + "".join(" %d" % x for x in s[4:])
    return None


def inter(ctx, lang, lib, i, n):
    """Programs in the intermediate format loaded in every way."""
    import os
    import tempfile

    import aspif

    it = sl.Interp(ctx, lang)
    k = "%s %s inter" % (lang, lib)
    modes = ["load", "files", "string", "add"] + (["aspif"] if lang == "python" and lib == "eng" else [])
    if lib == "sys":
        modes = modes[:3]
    tmp = tempfile.mkdtemp()
    file = os.path.join(tmp, "x.aspif")
    try:
        seqs = [(x,) for x in INTER] + list(itertools.product(INTER, repeat=2))
        if ctx.tier == "thorough":
            seqs += [(x, y, z) for x in INTER for y in INTER for z in INTER[::3]]
        for j, seq in enumerate(seqs):
            if j % n != i:
                continue
            lines = ["1 1 2 1 2 0 0"] + "\n".join(seq).split("\n") + ["4 1 a 1 1", "4 1 b 1 2"]
            if sum(x.startswith("9") for x in seq) > 1 or any(x[0] == "4" and seq.count(x) > 1 for x in seq):
                continue  # (terms must not be redefined)
            stms = [aspif.statement(x) for x in lines]
            with open(file, "w") as f:
                f.write("asp 1 0 0\n" + "\n".join(lines) + "\n0\n")
            want = [e for e in map(event, stms) if e]
            ok = not any(s[0] in ("assume", "external", "edge", "project") or s[0] == "rule" and s[1] == "disjunction" and len(s[2]) > 1 for s in stms)
            ans = sorted(",".join(x[0]) for x in aspif.answers(stms)) if ok else None
            for mode in modes:
                what = "%s by %s" % (lines, mode)
                ctx.journal("%s %s" % (k, what))
                ctx.execs += 1
                it.do("reset")
                it.ok("new", "0 --opt-mode=ignore --warn=none")
                it.ok("obs", "_", "init_program,begin_step,end_step,output_atom,output_term")
                seen = it.do("inter", mode, file)
                ctx.eq(k + ": syntax trees", seen, "#program base." if mode in ("files", "string") else "", what)
                it.do("level", "f", "")
                ev = it.solve("c")
                if ev is None:
                    continue
                log = [e for e in it.do("obslog").split("\x01") if e]
                th = lambda l, x: [e for e in l if e.startswith("theory") == x]
                for a, b in itertools.zip_longest(th(log, False), th(want, False)):
                    ctx.eq(k + ": statements", a, b, what)
                    ctx.transitions += 1
                ctx.eq(k + ": theory statements", resolve(th(log, True), {}), resolve(th(want, True), {}), what)
                if ans is not None:
                    ctx.eq(k + ": models", sorted(x[0] for x in parse_models(ev)), ans, what)
            if len(seq) == 1:
                for mode in ("nofiles", "nostring"):
                    it.do("reset")
                    it.ok("new", "0")
                    ctx.eq(k + ": syntax trees without a control", it.do("inter", mode, file), "#program base.", mode)
                    ctx.eq(k + ": models without a control", sorted(x[0] for x in parse_models(it.solve("c"))), [""], mode)
            ctx.state(tuple(lines))
    finally:
        it.i.close()
        os.unlink(file)
        os.rmdir(tmp)
    ctx.nontrivial += 1


def tasks(tier):
    out = []
    for lib in ("sys", "eng"):
        for l in ("python", "c++", "lua"):
            n = (8 if lib == "sys" else 4) if l != "lua" else 2
            out += [Py("seqs", l, lib, i, n, lib=lib, name="seqs-%s-%s-%d" % (l, lib, i)) for i in range(n)]
    out += [Py("wide", l, lib, lib=lib, name="wide-%s-%s" % (l, lib)) for l in ("python", "c++", "lua") for lib in ("sys", "eng")]
    out += [Py("inter", l, lib, i, 2, lib=lib, name="inter-%s-%s-%d" % (l, lib, i)) for l in ("python", "c++") for lib in ("sys", "eng") for i in range(2)]
    out += [Py("keywords", lib, lib=lib, name="keywords-" + lib) for lib in ("sys", "eng")]
    out += [Py("theory", l, lib="eng", name="theory-" + l) for l in ("python", "c++")]
    return out
