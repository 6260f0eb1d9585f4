"""D05: theory atoms and terms show exactly the theory part of the program."""
import itertools
import json
import re

import asp
import checks.solvelib as sl
from vplib import Py

PID = "D05"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of theory terms, elements, atoms and two-step histories, against a reference parser and the stable models"
NOTE = "All operator expressions with up to three (thorough four) operands, all structured terms up to depth 2, all symbol kinds substituted for variables, all atoms with up to two elements from an alphabet of conditions, with each guard, position and definition, all two-step histories, and every size up to 24 and around powers of two up to 300 for terms, tuples, elements, conditions and atoms; type, name, number, arguments, texts, conditions, guards and literals in Python, C++ and Lua."
RULE = ""
BUILD = ["sys/py/_clingo.so", "sys/lua/clingo.so", "sys/drv/icpp", "eng/py/_clingo.so", "eng/lua/clingo.so", "eng/drv/icpp"]
ASSUMPTIONS = ["the order in which elements and atoms are listed is not specified", "the reference parser below defines precedence and associativity"]

DEF = """#theory t {
 term { + : 1, binary, left; - : 1, binary, left; * : 2, binary, left; ^ : 3, binary, right; - : 4, unary; ! : 4, unary; ~ : 0, unary; <? : 0, binary, right };
 other { ? : 1, binary, left };
 &a/0 : term, any; &a/1 : term, any; &b/0 : term, {<=,=}, other, body; &b/2 : term, {=}, other, body; &c/1 : term, directive; &c/0 : other, {=}, term, directive; &h/0 : other, {<=}, term, head; &h/2: term, head }.
"""
BIN = {"+": (1, 0), "-": (1, 0), "*": (2, 0), "^": (3, 1), "<?": (0, 1), "?": (1, 0)}
UN = {"-": 4, "!": 4, "~": 0}


# ---- reference parser: tokens to views [type, text, value, arguments]
def num(n):
    return ["Number", "(%d)" % n if n < 0 else str(n), n, []]


def sym(s):
    return ["Symbol", s, s, []]


def fun(f, a):
    return ["Function", f + "(" + ",".join(x[1] for x in a) + ")", f, a]


def seq(t, a):
    l, r = {"Tuple": "()", "Set": "{}", "List": "[]"}[t]
    return [t, l + ",".join(x[1] for x in a) + ("," if t == "Tuple" and len(a) == 1 else "") + r, "", a]


def un(o, a):
    return ["Function", "(" + o + a[1] + ")", o, [a]]


def bi(o, a, b):
    return ["Function", "(" + a[1] + o + b[1] + ")", o, [a, b]]


def parse_ops(tok, env):
    """tok: alternating prefix operators, operands and binary operators."""
    pos = 0

    def cont(p, op):
        q, right = BIN[op]
        return q > p or q == p and right

    def primary(t):
        return env[t] if t in env else t

    def unary():
        nonlocal pos
        t = tok[pos]
        pos += 1
        if isinstance(t, str) and t in UN:
            return un(t, expr(UN[t]))
        return primary(t)

    def expr(p):
        nonlocal pos
        x = unary()
        while pos < len(tok) and cont(p, tok[pos]):
            o = tok[pos]
            pos += 1
            x = bi(o, x, expr(BIN[o][0]))
        return x

    r = expr(-1)
    assert pos == len(tok)
    return r


def of_symbol(s):
    """View of a symbol (text of a term) substituted for a variable."""
    if re.fullmatch(r"-?\d+", s):
        return num(int(s)) if s[0] != "-" else un("-", num(-int(s)))
    if s[0] in '"#':
        return sym(s)
    if s[0] == "-":
        return un("-", of_symbol(s[1:]))
    n, _, a = s.partition("(")
    if not _:
        return sym(s)
    a = [of_symbol(x) for x in asp.split(a[:-1].rstrip(","), ",")]
    return fun(n, a) if n else seq("Tuple", a)


def text(v):
    return v[1]


def elem_text(ts, cond):
    c = "".join(": " * (i == 0) + x for i, x in enumerate([",".join(cond)] if cond else []))
    return ",".join(map(text, ts)) + c


def canon(x):
    return json.dumps(x)


class V:
    def __init__(self, ctx, lang, lib):
        self.ctx = ctx
        self.it = sl.Interp(ctx, lang)
        self.k = "%s %s" % (lang, lib)
        self.old = lib == "sys"

    def begin(self, *texts, args="0"):
        self.it.do("reset")
        self.it.ok("new", args)
        self.it.ok("add", "base", "", DEF + "\n".join(texts))
        self.ctx.check(self.it.ok("ground", "base") == "ok", self.k + ": messages", self.it.do("msgs")[:300])
        return self.names()

    def names(self):
        m = {}
        for x in asp.split(self.it.ok("atoms"), " "):
            s, _, l = x.rsplit("/", 2)
            m[int(l)] = s
        self.lits = {s: l for l, s in m.items()}
        return m

    def view(self):
        """Observed theory atoms: [term, [[terms, names of the condition]...], guard, literal]; checks the texts."""
        ctx, k = self.ctx, self.k
        r = self.it.ok("theory2")
        if r.startswith("E:"):
            return []
        m = self.names()
        out = []
        ids = {}
        for t, es, g, lit, txt in json.loads(r):
            els = []
            for ts, cond, cid, etxt in es:
                names = [("not " if l < 0 else "") + m.get(abs(l), "?%d" % l) for l in cond]
                # (the text of an element shows the condition of the program, literals sorted as listed)
                ets = ",".join(map(text, ts))
                if not cond:
                    ctx.eq(k + ": text of an element", etxt, ets or ": ", "element")
                    ctx.eq(k + ": empty condition", cid, 0, "element " + etxt)
                else:
                    ctx.eq(k + ": text of an element", etxt, ets + ": " + ",".join(names), "element")
                    ctx.check(cid != 0, k + ": condition id", etxt)
                    if len(cond) == 1:
                        ctx.eq(k + ": id of a condition with one literal", cid, cond[0], etxt)
                ctx.eq(k + ": condition ids", ids.setdefault(tuple(sorted(cond)), cid), cid, "the same condition " + etxt)
                els.append([ts, sorted(names)])
                ctx.transitions += 1
            want = "&" + t[1] + "{" + ";".join(e[3] for e in es) + "}" + (g[0] + g[1][1] if g else "")
            ctx.eq(k + ": text of an atom", txt, want, "atom")
            out.append([t, dedupe(els), g, lit])
        ctx.check(len(set(ids.values())) == len(ids), k + ": distinct conditions have distinct ids", str(ids))
        return out

    def compare(self, what):
        """Types, terms, elements and atoms are totally ordered; equal exactly if they are the same."""
        r = self.it.do("theorycmp")
        if not self.ctx.check(r[0] == "[", self.k + ": comparing fails", r):
            return
        for (ks, rows), kind in zip(json.loads(r), ("types", "terms", "elements", "atoms")):
            n = len(ks)
            self.ctx.transitions += n * n
            lt = [[0] * n for _ in ks]
            for i, j in itertools.product(range(n), repeat=2):
                x = rows[i][j]
                same = ks[i] == ks[j]
                if kind == "types":
                    ok = x == ("100101" if same else "011100" if i < j else "010011")
                elif same and (kind == "terms" or i == j):
                    ok = x == "100101"
                elif same:
                    ok = x in ("100101", "011100", "010011")
                else:
                    ok = x in ("011100", "010011")
                lt[i][j] = x == "011100"
                if not self.ctx.check(ok, self.k + ": comparison of " + kind, "%s: %s and %s give %s" % (what, ks[i], ks[j], x)):
                    return
            order = sorted(range(n), key=lambda i: sum(lt[j][i] for j in range(n)))
            for i, j in itertools.combinations(order, 2):
                self.ctx.check(not lt[j][i], self.k + ": order of " + kind, "%s: %s %s" % (what, ks[i], ks[j]))

    def expect(self, want, what):
        """Compares with [[term, elements, guard]...] up to order."""
        got = self.view()
        # (conditions that differ in the order of literals may or may not be merged)
        w = sorted(canon([t, dedupe(es), g]) for t, es, g in want)
        if self.old and any(a != b and a[0] == b[0] and len(a[1]) == len(b[1]) > 1 for _, es, _ in want for a, b in itertools.combinations(es, 2)):
            return got  # the installed library merges such elements
        g = sorted(canon(x[:3]) for x in got)
        self.ctx.eq(self.k + ": theory atoms", g, w, what)
        self.ctx.state(tuple(w))
        return got

    def case(self, what):
        self.ctx.journal("%s %s" % (self.k, what))
        self.ctx.execs += 1
        self.ctx.nontrivial += 1


# ---- operator expressions
ENV = {"x": sym("x"), "2": num(2), "g(y)": fun("g", [sym("y")])}


def ops(ctx, lang, lib, i, n):
    v = V(ctx, lang, lib)
    pre = [[], ["-"], ["~"], ["!", "-"], ["-", "~"]]
    bins = ["+", "-", "*", "^", "<?"]
    leaf = ["x", "2", "g(y)", "x"]
    terms = []
    N = 4 if ctx.tier == "thorough" and lang == "python" else 3
    for k in range(1, N + 1):
        for ps in itertools.product(pre[: 5 if k < 4 else 3], repeat=k):
            for bs in itertools.product(bins, repeat=k - 1):
                tok = []
                for j in range(k):
                    tok += ps[j] + [leaf[j]] + ([bs[j]] if j < k - 1 else [])
                terms.append(tok)
    for c in range(i * 40, len(terms), n * 40):
        ch = terms[c : c + 40]
        v.case("operators %d" % c)
        v.begin("&a{" + " ; ".join(" ".join(t) for t in ch) + "}.")
        v.expect([[sym("a"), [[[parse_ops(t, ENV)], []] for t in ch], []]], " ; ".join(" ".join(t) for t in ch))
    # also as guards and in elements with several terms
    if i == 0:
        for t in terms[: 5 + 125]:
            v.case("operators in guard " + " ".join(t))
            v.begin("&h{ %s ? 1 }<= %s. {r}. r:-&a(1){ %s, x, %s }." % ("x", " ".join(t), " ".join(t), " ".join(t)))
            p = parse_ops(t, ENV)
            v.expect([[sym("h"), [[[bi("?", sym("x"), num(1))], []]], ["<=", p]], [fun("a", [num(1)]), [[[p, sym("x"), p], []]], []]], " ".join(t))
    v.it.i.close()


# ---- structured terms
def structures(ctx, lang, lib):
    v = V(ctx, lang, lib)
    S = 'a "s" f'.split()
    leaf = [("1", num(1)), ("0", num(0)), ("2147483647", num(2147483647)), ("x", sym("x")), ('"s"', sym('"s"')), ('"a\\"b\\n\\\\"', sym('"a\\"b\\n\\\\"')), ("_y", sym("_y")), ("x'", sym("x'"))]

    def wrap(al):
        out = []
        for t, (l, r, tail) in {"Tuple": ("(", ")", ","), "Set": ("{", "}", ""), "List": ("[", "]", "")}.items():
            out.append((l + r, seq(t, [])))
            for a in al:
                out.append((l + a[0] + tail + r, seq(t, [a[1]])))
            for a, b in itertools.product(al[:4], al[2:6]):
                out.append((l + a[0] + "," + b[0] + r, seq(t, [a[1], b[1]])))
        for a in al:
            out.append(("f(%s)" % a[0], fun("f", [a[1]])))
            out.append(("g(%s,%s,1)" % (a[0], al[0][0]), fun("g", [a[1], al[0][1], num(1)])))
            out.append(("(%s)" % a[0], a[1]))
        return out

    d1 = wrap(leaf)
    d2 = wrap(d1[:: 1 if ctx.tier == "thorough" else 3])
    allt = leaf + d1 + d2
    for c in range(0, len(allt), 25):
        ch = allt[c : c + 25]
        v.case("structures %s" % [a for a, _ in ch])
        v.begin("&a{" + ";".join(a for a, _ in ch) + "}.")
        w = {canon(b): b for _, b in ch}
        v.expect([[sym("a"), [[[b], []] for b in w.values()], []]], "; ".join(a for a, _ in ch))
        if lang != "c++":
            v.compare("structures %d" % c)
    # the empty tuple of terms, tuples of terms of different lengths
    for n in range(0, 4):
        for ts in itertools.product(leaf[:4:2] + d1[:2], repeat=n):
            v.case("tuple %s" % [a for a, _ in ts])
            v.begin("{q}. &a{" + ",".join(a for a, _ in ts) + ": q}.")
            v.expect([[sym("a"), [[[b for _, b in ts], ["q"]]], []]], "tuple of terms")
    # symbols for variables
    syms = ["5", "-3", "-2147483647", "2147483647", "g", "-g", "f(1,-2)", "-f(1)", "(1,x)", "(1,)", "()", '"t"', '"q\\"\\n"', "#inf", "#sup", "f(-g,(f(()),2))", '-h(#inf,"x",-h(0))', "f((1,2),-2)"]
    for s in syms:
        for t in syms:
            v.case("symbols %s %s" % (s, t))
            v.begin("p(%s,%s). &a{X,f(Y),- X + Y:p(X,Y)}. {r}. r:-&a(X){ 1 : p(Y,X) },p(_,X). &h(X,Y){} :- p(X,Y)." % (s, t))
            a, b = of_symbol(s), of_symbol(t)
            v.expect([[sym("a"), [[[a, fun("f", [b]), bi("+", un("-", a), b)], []]], []], [fun("a", [b]), [[[num(1)], []]], []], [fun("h", [a, b]), [], []]], "symbols")
    v.it.i.close()


# ---- elements, conditions, guards, positions, literals
BASE = "{p(1);p(2);q}. r."
MOD = BASE + " "
# element text -> list of (terms, condition names)
ELEMS = [
    ("", "", [([], [])]),
    ("1", "", [([num(1)], [])]),
    ("1", "q", [([num(1)], ["q"])]),
    ("2,x", "not q", [([num(2), sym("x")], ["not q"])]),
    ("1", "q,p(1)", [([num(1)], ["q", "p(1)"])]),
    ("1", "p(1),q", [([num(1)], ["q", "p(1)"])]),
    ("X", "p(X)", [([num(1)], ["p(1)"]), ([num(2)], ["p(2)"])]),
    ("x", "p(X),not q", [([sym("x")], ["p(1)", "not q"]), ([sym("x")], ["p(2)", "not q"])]),
    ("y", "r", [([sym("y")], [])]),
    ("y", "s", []),
    ("y", "not s", [([sym("y")], [])]),
    ("y", "not r", []),
    ("X+1", "p(X),X<2", [([bi("+", num(1), num(1))], ["p(1)"])]),
    ("X,Y", "p(X),p(Y),X!=Y", [([num(1), num(2)], ["p(1)", "p(2)"]), ([num(2), num(1)], ["p(1)", "p(2)"])]),
    ("X", "X=1..2", [([num(1)], []), ([num(2)], [])]),
]


def dedupe(els):
    return [json.loads(x) for x in sorted({canon([ts, sorted(c)]) for ts, c in els})]


def etext(e):
    return e[0] + (" : " + e[1] if e[1] or not e[0] else "")


def conds(ctx, lang, lib):
    v = V(ctx, lang, lib)
    sets = [()] + [(a,) for a in ELEMS] + list(itertools.product(ELEMS, repeat=2))
    for j, es in enumerate(sets):
        els = dedupe([x for e in es for x in e[2]])
        body = "{" + ";".join(etext(e) for e in es) + "}"
        form = ["&a%s.", "{x}. x:-&a%s.", "&c(1)%s.", "{x}. x:-not &a%s.", "&a%s:-q."][j % 5]
        term = fun("c", [num(1)]) if "&c" in form else sym("a")
        v.case("conditions " + form % body)
        v.begin(BASE, form % body)
        v.expect([[term, els, []]], form % body)
    v.it.i.close()


def literals(ctx, lang, lib):
    """Literals of theory atoms have the value the program gives them."""
    v = V(ctx, lang, lib)
    it, k = v.it, v.k
    G = [("", []), ("<=1", ["<=", num(1)]), ("= x", ["=", sym("x")]), ("<= (x,{y})", ["<=", seq("Tuple", [sym("x"), seq("Set", [sym("y")])])])]
    AT = [("a", sym("a"), ("", )), ("a(1)", fun("a", [num(1)]), ("",)), ("b", sym("b"), ("", "<=1", "= x", "<= (x,{y})")), ("b(x,-1)", fun("b", [sym("x"), un("-", num(1))]), ("", "= x")), ("h", sym("h"), ("", "<=1", "<= (x,{y})")), ("h(1+1,(x,))", fun("h", [num(2), seq("Tuple", [sym("x")])]), ("",)), ("c", sym("c"), ("", "= x")), ("c(f(x))", fun("c", [fun("f", [sym("x")])]), ("",))]
    G = dict(G)
    # position -> (program, kind)
    POS = {"body": "{x}. x:-%s.", "neg": "{x}. x:-not %s.", "negneg": "x:-not not %s.", "headq": "%s:-q.", "headn": "%s:-not q.", "fact": "%s.", "constraint": ":-%s,q.", "two": "%s:-q. x:-%s."}
    for (a, t, gs), (pn, pos) in itertools.product(AT, POS.items()):
        ok = {"a": True, "b": pn in ("body", "neg", "negneg", "constraint"), "h": pn in ("headq", "headn", "fact"), "c": pn == "fact"}[a[0]]
        for g, e in itertools.product(gs, ELEMS[1:8:2]):
            if a[0] == "b" and pn == "fact":
                continue
            atom = "&" + a + "{" + etext(e) + "}" + g
            if "h" == a:
                atom = "&" + a + "{}" + g
                e = ("", "", [])
            if "c" == a:
                atom = "&" + a + "{}" + g
                e = ("", "", [])
            prog = pos.replace("%s", atom)
            v.case("literals " + prog)
            if not ok:
                it.do("reset")
                it.ok("new", "0")
                it.ok("add", "base", "", DEF + BASE + prog)
                r = it.do("ground", "base")
                ctx.check(r.startswith("E:"), k + ": misplaced atoms are rejected", prog + ": " + r)
                continue
            v.begin(BASE, prog)
            got = v.expect([[t, dedupe(e[2]), G[g]]], prog)
            if len(got) != 1:
                continue
            lit = got[0][3]
            ctx.eq(k + ": literal of a directive", lit == 0, a[0] == "c", prog)
            if lit == 0:
                continue
            # reference: the atom is free unless defined
            head = {"headq": "th:-q.", "headn": "th:-not q.", "fact": "th.", "two": "th:-q. x:-th."}.get(pn)
            ref = BASE + (head if head else "{th}. " + pos.replace("%s", "th"))
            M = asp.stable(asp.parse(ref))
            it.do("level", "b", "")
            for s in (1, -1, 0):
                ev = it.solve("c", "%d" % (s * lit) if s else "")
                if ev is None:
                    continue
                want = sorted(asp.key(frozenset(X) - {"th"}) for X in M if not s or ("th" in X) == (s > 0))
                ctx.eq(k + ": literal of a theory atom", sorted(sl.models(ev)), want, "%s assuming %d" % (prog, s))
                # theory atoms are cleared after solving; literals remain
    v.it.i.close()


# ---- histories of two steps
def steps(ctx, lang, lib):
    v = V(ctx, lang, lib)
    it, k = v.it, v.k
    parts = [("&a{1;x}.", [[sym("a"), [[[num(1)], []], [[sym("x")], []]], []]]), ("{q}. &a{f(1):q}.", [[sym("a"), [[[fun("f", [num(1)])], ["q"]]], []]]), ("{x}. x:-&b{1}=x.", [[sym("b"), [[[num(1)], []]], ["=", sym("x")]]]), ("&c(1){(1,)}.", [[fun("c", [num(1)]), [[[seq("Tuple", [num(1)])], []]], []]]), ("z.", []),
             ("&a{X:X=1..2} :- q. {q}.", [[sym("a"), [[[num(1)], []], [[num(2)], []]], []]]), ("{y}. &h{x?1}<=f(1) :- y. &c{}=x+1.", [[sym("h"), [[[bi("?", sym("x"), num(1))], []]], ["<=", fun("f", [num(1)])]], [sym("c"), [], ["=", bi("+", sym("x"), num(1))]]])]
    for (a, wa), (b, wb), solve in itertools.product(parts, parts, (0, 1)):
        if a == b or "{q}" in a and "{q}" in b:
            continue
        v.case("steps %s / %s solve=%d" % (a, b, solve))
        it.do("reset")
        it.ok("new", "0")
        it.ok("add", "base", "", DEF + a)
        it.ok("add", "two", "", b)
        it.ok("ground", "base")
        v.expect(wa, "step 1")
        v.expect(wa, "step 1 again")
        if solve:
            it.solve("c")
        it.ok("ground", "two")
        v.expect(wb if solve else wa + wb, "step 2")
        if lang != "c++":
            v.compare("%s / %s" % (a, b))
        it.solve("c")
    v.it.i.close()


BAD = [
    "&zz{}.", "&a(1,2){}.", "&a{}=1.", "&h{}=1.", "&h{1+1}.", "&a{1?2}.", "&a{x/y}.", "&a{? x}.", "&b{}<= - 1, x.", "{x}. x:-&h{}.", "&b{}.", ":-&c{}.", "&c{}:-x. {x}.", "&a{!- x}.", "#theory t{}.", "&b{1}=1+1:-. ",
]


def errors(ctx, lang, lib):
    v = V(ctx, lang, lib)
    for s in BAD:
        v.case("error " + s)
        v.it.do("reset")
        v.it.ok("new", "0")
        r = v.it.do("add", "base", "", DEF + s)
        r2 = v.it.do("ground", "base")
        ctx.check(r.startswith("E:") or r2.startswith("E:"), v.k + ": ill-defined theory atoms are rejected", s)
        m = v.it.do("msgs")
        ctx.check("error: " in m, v.k + ": ill-defined theory atoms are reported", s + ": " + m)
    v.it.i.close()


SIZES = list(range(25)) + [31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]


def wide(ctx, lang, lib):
    """Every size of a term, tuple, set of elements, condition or set of atoms."""
    v = V(ctx, lang, lib)
    for n in SIZES + ([511, 512, 513, 1000, 1024, 2000] if ctx.tier == "thorough" else []):
        X = [num(i) for i in range(1, n + 1)]
        nums = ",".join(str(i) for i in range(1, n + 1))
        v.case("wide %d terms" % n)
        v.begin("{q}. &a{%s:q}. &a(1){f(%s);{%s};[%s]}." % (nums, nums, nums, nums) if n else "{q}. &a{:q}. &a(1){{};[]}.")
        ts = [fun("f", X)] * (n > 0) + [seq("Set", X), seq("List", X)]
        v.expect([[sym("a"), [[X, ["q"]]], []], [fun("a", [num(1)]), [[[t], []] for t in ts], []]], "wide %d" % n)
        v.case("wide %d elements" % n)
        v.begin("{q}. &a{X:X=1..%d}. &h{x?Y:p(Y)}<=X :- X=%d. {p(Y):Y=1..%d}." % (n, n, n))
        h = [[[bi("?", sym("x"), x)], ["p(%d)" % i]] for i, x in enumerate(X, 1)]
        v.expect([[sym("a"), [[[x], []] for x in X], []], [sym("h"), h, ["<=", num(n)]]], "wide %d" % n)
        v.case("wide %d literals" % n)
        v.begin("{p(X):X=1..%d}. &a{x:%s}. &a{y:%s}. " % (n, ",".join("p(%d)" % i for i in range(1, n + 1)), ",".join("not p(%d)" % i for i in range(1, n + 1))) if n else "&a{x}. &a{y}.")
        v.expect([[sym("a"), [[[sym("x")], ["p(%d)" % i for i in range(1, n + 1)]]], []], [sym("a"), [[[sym("y")], ["not p(%d)" % i for i in range(1, n + 1)]]], []]] if n else [[sym("a"), [[[sym("x")], []]], []], [sym("a"), [[[sym("y")], []]], []]], "wide %d" % n)
        v.case("wide %d atoms" % n)
        v.begin("&a(X){X}:-X=1..%d." % n)
        v.expect([[fun("a", [x]), [[[x], []]], []] for x in X], "wide %d" % n)
    v.it.i.close()


def foreign(ctx, lib):
    """Comparisons with objects of other types (Python)."""
    import operator

    import clingo

    c = clingo.Control()
    c.add("base", [], "#theory t{u{+ :1,binary,left};&s/1:u,{<},u,any}. {a}. &s(1){x+y,(1,2):a;f(z)}<3.")
    c.ground([("base", [])])
    a = next(iter(c.theory_atoms))
    els = a.elements
    obs = [a, a.term, a.guard[1]] + list(els) + [t for e in els for t in e.terms] + [u for e in els for t in e.terms for u in (t.arguments if t.type in (clingo.TheoryTermType.Function, clingo.TheoryTermType.Tuple) else [])]
    others = [None, 1, 0, "x", object(), (), clingo.Number(1), c]
    for x in obs:
        for y in obs + others:
            if type(x) is type(y):
                continue
            ctx.journal("%s %r %r" % (lib, x, y))
            ctx.execs += 1
            ctx.transitions += 10
            ctx.state((type(x).__name__, str(x), str(y)[:10]))
            try:
                g = (x == y, x != y, y == x, y != x, y in [x], x in [y], {x: 1}.get(y) if y.__hash__ else None)
            except Exception as e:
                g = repr(e)
            ctx.eq("python: equality of a theory atom, element or term with another object", g, (False, True, False, True, False, False, None), "%s and %s" % (type(x).__name__, type(y).__name__))
            for o in ("lt", "le", "gt", "ge"):
                try:
                    ctx.fail("python: order of a theory atom, element or term and another object", "%s %s %s gives %r" % (type(x).__name__, o, type(y).__name__, getattr(operator, o)(x, y)))
                except TypeError:
                    pass
                except Exception as e:
                    ctx.fail("python: order of a theory atom, element or term and another object", repr(e))


def tasks(tier):
    out = [Py("foreign", lib, lib=lib, name="foreign-" + lib) for lib in ("sys", "eng")]
    for lib in ("sys", "eng"):
        for l in ("python", "c++", "lua"):
            out.append(Py("wide", l, lib, lib=lib, name="wide-%s-%s" % (l, lib)))
            if lib == "eng" and l != "python" and tier != "thorough":
                out += [Py(f, l, lib, lib=lib, name="%s-%s-%s" % (f, l, lib)) for f in ("conds", "literals", "steps")]
                continue
            out += [Py("ops", l, lib, i, 2, lib=lib, name="ops-%s-%s-%d" % (l, lib, i)) for i in range(2)]
            out += [Py(f, l, lib, lib=lib, name="%s-%s-%s" % (f, l, lib)) for f in ("structures", "conds", "literals", "steps", "errors")]
    return out
