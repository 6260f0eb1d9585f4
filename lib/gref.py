"""Naive reference semantics of small non-ground programs.

Rules are instantiated over all values their variables can take and the answer sets are found by enumerating all
interpretations, with here-and-there satisfaction of rules, conditional literals, and aggregates.
"""
import itertools
import re

import symmodel as sm

TOK = re.compile(r'\s*(?:(\d+)|(#sum\+|#?[a-z][A-Za-z0-9_]*)|([A-Z_][A-Za-z0-9_]*)|("(?:[^"\\]|\\.)*")|(\.\.|:-|:~|<=|>=|!=|\*\*|[-+*/\\^?&~|().,;:{}<>=@\[\]]))')
PREC = [["^"], ["?"], ["&"], ["+", "-"], ["*", "/", "\\"]]
CMP = ["=", "!=", "<", "<=", ">", ">="]
INTS = range(-9, 17)


class Undefined(Exception):
    pass


class Parser:
    def __init__(self, text):
        self.t, i = [], 0
        text = text.strip()
        while i < len(text):
            m = TOK.match(text, i)
            assert m, text[i:]
            k = next(j for j in range(5) if m.group(j + 1) is not None)
            self.t.append((k, m.group(k + 1)))
            i = m.end()
        self.i = 0

    def peek(self, d=0):
        return self.t[self.i + d][1] if self.i + d < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def eat(self, x=None):
        v = self.peek()
        assert x is None or v == x, (x, v, self.t)
        self.i += 1
        return v

    def has(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    # terms
    def term(self):
        l = self.bin(0)
        if self.has(".."):
            return ("ivl", l, self.bin(0))
        return l

    def bin(self, p):
        if p == len(PREC):
            return self.pow()
        l = self.bin(p + 1)
        while self.peek() in PREC[p] and self.kind() == 4:
            o = self.eat()
            l = ("op", o, l, self.bin(p + 1))
        return l

    def pow(self):
        l = self.unary()
        return ("op", "**", l, self.pow()) if self.has("**") else l

    def unary(self):
        if self.has("-"):
            return ("neg", self.unary())
        if self.has("~"):
            return ("not", self.unary())
        return self.atomic()

    def atomic(self):
        k = self.kind()
        v = self.eat()
        if k == 0:
            return ("c", sm.num(int(v)))
        if k == 3:
            return ("c", sm.st(v[1:-1]))
        if v == "#sup":
            return ("c", sm.SUP)
        if v == "#inf":
            return ("c", sm.INF)
        if k == 1:
            if self.peek() == "(":
                return self.args(v)
            return ("c", sm.fun(v)) if v not in self.consts else self.consts[v]
        if k == 2:
            return ("any",) if v == "_" else ("var", v)
        if v == "|":
            t = self.term()
            self.eat("|")
            return ("abs", t)
        assert v == "(", (v, self.t)
        self.i -= 1
        return self.args("")

    consts = {}

    def args(self, name):
        self.eat("(")
        alts = []
        while True:
            a, comma = [], False
            while self.peek() not in (";", ")"):
                a.append(self.term())
                comma = self.has(",")
                if not comma:
                    break
            alts.append(a[0] if name == "" and len(a) == 1 and not comma else ("fun", name, tuple(a)))
            if not self.has(";"):
                break
        self.eat(")")
        return alts[0] if len(alts) == 1 else ("pool", tuple(alts))

    # literals
    def literal(self):
        n = 0
        while self.has("not"):
            n += 1
        if self.peek() in ("#true", "#false"):
            return ("bool", (self.eat() == "#true") == (n != 1))
        l = self.term()
        if self.peek() in CMP:
            c = [l]
            while self.peek() in CMP:
                c.append(self.eat())
                c.append(self.term())
            return ("cmp", n, c)
        return ("lit", n, l)

    def cond(self, stop):
        r = []
        if self.has(":"):
            while self.peek() not in stop:
                r.append(self.literal())
                if not self.has(","):
                    break
        return r

    def agg(self, left=None):
        """Aggregate after an optional guard term and relation; None if there is none."""
        f = "#set"
        if self.peek() != "{":
            f = self.eat()
        self.eat("{")
        els = []
        while self.peek() != "}":
            tup = []
            if f == "#set":
                l = self.literal()
                els.append((None, [l] + self.cond((";", "}")), l))
            else:
                while self.peek() not in (":", ";", "}"):
                    tup.append(self.term())
                    if not self.has(","):
                        break
                els.append((tup, self.cond((";", "}")), None))
            if not self.has(";"):
                break
        self.eat("}")
        g = [left] if left else []
        if self.peek() in CMP:
            o = self.eat()
            g.append((o, self.term(), False))
        elif self.kind() in (0, 2, 1) or self.peek() == "(":
            g.append(("<=", self.term(), False))
        return f, els, g

    def isagg(self, i):
        return i < len(self.t) and (self.t[i][1] == "{" or self.t[i][1] in ("#count", "#sum", "#sum+", "#min", "#max"))

    def tryagg(self):
        """Parses an aggregate with guards or returns None."""
        start = self.i
        if self.isagg(self.i):
            return self.agg()
        try:
            t = self.term()
            o = "<="
            if self.peek() in CMP:
                o = self.eat()
            if self.isagg(self.i):
                return self.agg((o, t, True))
        except (AssertionError, IndexError, TypeError):
            pass
        self.i = start
        return None

    def body(self):
        r = []
        while self.peek() not in (".", None):
            start, n = self.i, 0
            while self.has("not"):
                n += 1
            a = self.tryagg()
            if a:
                r.append(("agg", n) + a)
            else:
                self.i = start
                l = self.literal()
                if self.peek() == ":":
                    r.append(("cond", l, self.cond((";", "."))))
                else:
                    r.append(l)
            if not (self.has(",") or self.has(";")):
                break
        self.eat(".")
        return r

    def statement(self):
        if self.peek() in ("#show", "#external", "#const", "#minimize", "#maximize", "#program", "#defined"):
            k = self.eat()
            if k == "#const":
                n = self.eat()
                self.eat("=")
                self.consts[n] = self.term()
                self.eat(".")
                return None
            if k in ("#minimize", "#maximize"):
                self.eat("{")
                els = []
                while self.peek() != "}":
                    w = self.term()
                    p = self.term() if self.has("@") else ("c", sm.num(0))
                    tup = []
                    while self.has(","):
                        tup.append(self.term())
                    els.append((("neg", w) if k == "#maximize" else w, p, tup, self.cond((";", "}"))))
                    if not self.has(";"):
                        break
                self.eat("}")
                self.eat(".")
                return ("min", els)
            if k == "#show" and self.has("."):
                return ("showsig", None)
            t = self.term()
            if k == "#show" and t[0] == "op" and t[1] == "/":
                self.eat(".")
                return ("showsig", (t[2][1][1], t[3][1][1]))
            b = self.cond((".",)) if self.peek() == ":" else []
            self.eat(".")
            return ("show" if k == "#show" else "ext", t, b)
        if self.has(":~"):
            b = self.body()
            self.eat("[")
            w = self.term()
            p = self.term() if self.has("@") else ("c", sm.num(0))
            tup = []
            while self.has(","):
                tup.append(self.term())
            self.eat("]")
            return ("min", [(w, p, tup, b)])
        if self.has(":-"):
            return ("rule", ("disj", []), self.body())
        a = self.tryagg()
        if a:
            h = ("choice",) + a
        else:
            els = []
            while True:
                l = self.literal()
                els.append((l, self.cond((";", "|", ":-", "."))))
                if not (self.has(";") or self.has("|")):
                    break
            h = ("disj", els)
        if self.has(":-"):
            return ("rule", h, self.body())
        self.eat(".")
        return ("rule", h, [])


def parse(text):
    Parser.consts = {}
    p = Parser(text)
    out = []
    while p.i < len(p.t):
        s = p.statement()
        if s:
            out.append(s)
    return out


# ---- terms
def variables(x, out):
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "var":
        out.add(x[1])
    elif isinstance(x, (tuple, list)):
        for y in x:
            variables(y, out)
    return out


def wrap(n):
    return (n + 2**31) % 2**32 - 2**31


def arith(o, a, b):
    if o == "+":
        return a + b
    if o == "-":
        return a - b
    if o == "*":
        return a * b
    if o == "&":
        return a & b
    if o == "?":
        return a | b
    if o == "^":
        return a ^ b
    if o == "**":
        if b < 0:
            if a == 0:
                raise Undefined
            return 0
        return a**b
    if b == 0:
        raise Undefined
    q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
    return q if o == "/" else a - q * b


def values(t, env, undef):
    """All values of a term; notes undefined operations."""
    k = t[0]
    if k == "c":
        return [t[1]]
    if k == "var":
        return [env[t[1]]]
    if k == "any":
        return [None]
    if k == "pool":
        return [v for x in t[1] for v in values(x, env, undef)]
    if k == "fun":
        return [sm.fun(t[1], a) for a in itertools.product(*(values(x, env, undef) for x in t[2]))]
    out = []
    if k in ("op", "ivl"):
        a, b = (t[2], t[3]) if k == "op" else (t[1], t[2])
        for x in values(a, env, undef):
            for y in values(b, env, undef):
                if x[0] != "num" or y[0] != "num":
                    undef.append(t)
                elif k == "ivl":
                    out += [sm.num(i) for i in range(x[1], y[1] + 1)]
                else:
                    try:
                        out.append(sm.num(wrap(arith(t[1], x[1], y[1]))))
                    except Undefined:
                        undef.append(t)
        return out
    for x in values(t[1], env, undef):
        if x[0] == "num":
            out.append(sm.num({"neg": -x[1], "not": ~x[1], "abs": abs(x[1])}[k]))
        elif k == "neg" and x[0] == "fun":
            out.append(sm.fun(x[1], x[2], not x[3]))
        else:
            undef.append(t)
    return out


def match(t, v, env):
    """All environments extending env under which the term can have the value."""
    k = t[0]
    if k == "any":
        return [env]
    if k == "var" and t[1] not in env:
        return [dict(env, **{t[1]: v})]
    if k == "fun":
        if v[0] != "fun" or v[1] != t[1] or len(v[2]) != len(t[2]) or not v[3]:
            return []
        es = [env]
        for x, y in zip(t[2], v[2]):
            es = [f for e in es for f in match(x, y, e)]
        return es
    if k == "pool":
        return [e for x in t[1] for e in match(x, v, env)]
    free = variables(t, set()) - set(env)
    out = []
    if k == "neg" and len(free) == 1 and v[0] == "fun":
        return match(t[1], sm.fun(v[1], v[2], not v[3]), env)
    for vs in itertools.product([sm.num(i) for i in INTS], repeat=len(free)):
        e = dict(env, **dict(zip(free, vs)))
        out += [e for x in values(t, e, []) if x == v]
    return out


def compare(o, a, b):
    a, b = sm.key(a), sm.key(b)
    return {"=": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]


def subterms(s, out):
    if s not in out:
        out.add(s)
        if s[0] == "fun":
            for a in s[2]:
                subterms(a, out)


def numbers(s):
    if s[0] == "num":
        yield s[1]
    elif s[0] == "fun":
        for a in s[2]:
            yield from numbers(a)


class Grounder:
    LIMIT = 400

    def __init__(self, stms):
        self.stms = stms
        self.P = set()  # atoms that may be derived
        self.undef = []  # undefined operations of instances with possibly true positive bodies
        self.by = {}
        while True:
            n = len(self.P)
            self.undef = []
            self.ground = [g for s in stms for g in self.instances(s)]
            for g in self.ground:
                for a in g[0] if g[0] else ():
                    self.add(a)
            if len(self.P) > self.LIMIT or any(n not in INTS for a in self.P for n in numbers(a)):
                raise OverflowError
            if len(self.P) == n:
                break

    def add(self, a):
        if a not in self.P:
            self.P.add(a)
            self.by.setdefault((a[1], len(a[2]), a[3]), []).append(a)

    def cand(self, t):
        """Possible atoms that may match."""
        if t[0] == "pool":
            return [a for x in t[1] for a in self.cand(x)]
        if t[0] == "neg":
            return [sm.fun(a[1], a[2], True) for a in []] + [x for x in self.by_sign(t[1], False)]
        return self.by_sign(t, True)

    def by_sign(self, t, pos):
        if t[0] == "c":
            return list(self.by.get((t[1][1], 0, pos), ()))
        return list(self.by.get((t[1], len(t[2]), pos), ()))

    def atoms(self, t, env, undef):
        return values(t, env, undef)

    def join(self, lits, env):
        """Environments binding all variables of the literals; conditional literals and aggregates are left alone."""
        lits = list(lits)
        for i, l in enumerate(lits):
            rest = lits[:i] + lits[i + 1 :]
            if l[0] == "cmp" and l[1] == 0:
                if not variables(l, set()) - set(env):
                    if self.cmp(l, env):
                        yield from self.join(rest, env)
                    return
                if len(l[2]) == 3 and l[2][1] == "=":
                    for a, b in ((l[2][0], l[2][2]), (l[2][2], l[2][0])):
                        if not variables(b, set()) - set(env) and (a[0] in ("var", "fun", "op", "neg")):
                            und = []
                            for v in sorted(set(values(b, env, und)), key=sm.key):
                                for e in match(a, v, env):
                                    yield from self.join(rest, e)
                            self.undef += und
                            return
        for i, l in enumerate(lits):
            if l[0] == "lit" and l[1] == 0:
                rest = lits[:i] + lits[i + 1 :]
                neg = l[2][0] == "neg"
                t = l[2][1] if neg else l[2]
                seen = []
                alts = t[1] if t[0] == "pool" else (t,)
                for alt in alts:
                    for a in self.by_sign(alt, not neg):
                        for e in match(alt if alt[0] != "c" else ("fun", alt[1][1], ()), sm.fun(a[1], a[2]), env):
                            if e not in seen:
                                seen.append(e)
                                yield from self.join(rest, e)
                return
        vs = sorted(set().union(*[variables(l, set()) for l in lits if l[0] in ("cmp", "lit")], set()) - set(env)) if lits else []
        if vs:
            for n in INTS:
                yield from self.join(lits, dict(env, **{vs[0]: sm.num(n)}))
            return
        for l in lits:
            if l[0] == "cmp" and not self.cmp(l, env):
                return
            if l[0] == "bool" and not l[1]:
                return
        yield env

    def cmp(self, l, env):
        und = []
        vs = [values(t, env, und) for t in l[2][::2]]
        self.undef += und
        ops = l[2][1::2]
        ok = any(all(compare(o, a, b) for o, a, b in zip(ops, c, c[1:])) for c in itertools.product(*vs))
        if l[1] == 1:
            # negated comparisons hold for some values
            return any(not all(compare(o, a, b) for o, a, b in zip(ops, c, c[1:])) for c in itertools.product(*vs))
        return ok

    def lits(self, lits, env):
        """Alternatives of ground literals under a complete environment: lists of (sign, atoms)."""
        alts = [[]]
        for l in lits:
            if l[0] == "lit":
                und = []
                vs = values(l[2], env, und)
                self.undef += und
                if l[1]:
                    alts = [x + [(l[1], v)] for x in alts for v in vs]
                else:
                    alts = [x + [(0, v)] for x in alts for v in vs if self.poss(v)]
            elif l[0] == "bool" and not l[1]:
                return []
        return alts

    def poss(self, v):
        return any(True for _ in matches(v, self.P))

    def localjoin(self, lits, env):
        for e in self.join([l for l in lits], env):
            for alt in self.lits(lits, e):
                yield e, alt

    def bodies(self, body, vs):
        """Ground bodies: (environment, list of ground elements)."""
        plain = [l for l in body if l[0] in ("lit", "cmp", "bool")]
        env0 = [{}]
        # assignments by aggregates
        assign = []
        bound = set()
        for l in plain:
            variables(l, bound)
        for l in body:
            if l[0] == "agg":
                for o, t, left in l[4]:
                    if o == "=" and t[0] == "var" and t[1] not in bound and l[1] == 0:
                        assign.append((t[1], l))
        for e in self.join(plain, {}):
            es = [e]
            for v, l in assign:
                es = [dict(x, **{v: y}) for x in es for y in self.aggvalues(l, x)]
            for e2 in es:
                # comparisons over assigned variables were enumerated over integers before
                for alt in self.lits(plain, e2):
                    els = [("lit",) + x for x in alt]
                    ok = True
                    for l in body:
                        if l[0] == "cond":
                            insts = []
                            for e3 in self.join(l[2], e2):
                                for c in self.lits(l[2], e3):
                                    if l[1][0] == "cmp":
                                        insts.append((c, [] if self.cmp(l[1], e3) else None))
                                    elif l[1][0] == "bool":
                                        insts.append((c, [] if l[1][1] else None))
                                    else:
                                        und = []
                                        for v in values(l[1][2], e3, und):
                                            insts.append((c, [(l[1][1], v)]))
                                        self.undef += und
                            els.append(("cond", insts))
                        elif l[0] == "agg":
                            a = self.agg(l, e2)
                            if a is None:
                                ok = False
                            else:
                                els.append(a)
                    if ok:
                        yield e2, els

    def aggvalues(self, l, env):
        els = self.elements(l, env)
        if l[2] in ("#min", "#max"):
            return [sm.SUP if l[2] == "#min" else sm.INF] + sorted({t[0] for t, _ in els}, key=sm.key)
        tuples = {t for t, _ in els}
        sums = {0}
        for t in tuples:
            w = 1 if l[2] in ("#count", "#set") else t[0][1] if t[0][0] == "num" else 0
            sums |= {x + w for x in sums}
        return [sm.num(n) for n in sorted(sums)]

    def elements(self, l, env):
        out = []
        for j, el in enumerate(l[3]):
            for e in self.join(el[1], env):
                for c in self.lits(el[1], e):
                    if el[0] is None:
                        # (comparisons are told apart by the values of their variables)
                        key = ("cmp", j, tuple(e[v] for v in sorted(variables(el[2], set())) if v in e))
                        out += [((("set", el[2][1] if el[2][0] == "lit" else 0, v),), c) for v in (values(el[2][2], e, []) if el[2][0] == "lit" else [key])]
                    else:
                        und = []
                        out += [(t, c) for t in itertools.product(*(values(t, e, und) for t in el[0]))]
                        if l[2] in ("#sum", "#sum+") and any(t[0][0] != "num" or l[2] == "#sum+" and t[0][1] < 0 for t, _ in out):
                            und.append(l)
                        self.undef += und
        return out

    def agg(self, l, env):
        und = []
        gs = [(o, values(t, env, und), left) for o, t, left in l[4]]
        self.undef += und
        if any(not v for _, v, _ in gs):
            return None
        return ("agg", l[1], l[2], [(o, v[0], left) for o, v, left in gs], self.elements(l, env))

    def instances(self, s):
        """(possible head atoms, head, body)"""
        if s[0] == "rule":
            vs = set()
            for e, b in self.bodies(s[2], vs):
                h = s[1]
                if h[0] == "choice":
                    l = ("agg", 0) + h[1:]
                    hs = []
                    for el in h[2]:
                        cond = el[1][1:] if el[0] is None else None
                        if el[0] is None and el[2][:2] == ("lit", 0):  # (nothing is chosen with other literals)
                            for e2 in self.join(cond, e):
                                for c in self.lits(cond, e2):
                                    und = []
                                    hs += [(v, c) for v in values(el[2][2], e2, und)]
                                    self.undef += und
                    und = []
                    gs = [(o, values(t, e, und), left) for o, t, left in h[3]]
                    self.undef += und
                    if any(not v for _, v, _ in gs):
                        continue
                    yield [v for v, _ in hs], ("choice", hs, [(o, v[0], left) for o, v, left in gs]), b
                else:
                    opts = [[]]
                    drop = False
                    for l, cond in h[1]:
                        if l[0] == "bool" and (not cond or not l[1]):
                            if l[1]:
                                drop = True
                            continue
                        if l[0] == "bool" or l[0] == "cmp" and cond:
                            # holds whenever the condition and the comparison do
                            opts = [o + [((3, None), c) for e2 in self.join(cond, e) if l[0] == "bool" or self.cmp(l, e2) for c in self.lits(cond, e2)] for o in opts]
                            continue
                        if not cond and len(variables(l, set()) - set(e)) == 0:
                            if l[0] == "cmp":
                                # a comparison in the head holds or not
                                opts = [o for o in opts] if not self.cmp(l, e) else []
                                continue
                            und = []
                            vs = values(l[2], e, und)
                            self.undef += und
                            opts = [o + [((l[1], v), [])] for o in opts for v in vs]
                        else:
                            cs = []
                            for e2 in self.join(cond, e):
                                for c in self.lits(cond, e2):
                                    und = []
                                    cs += [((l[1], v), c) for v in values(l[2], e2, und)]
                                    self.undef += und
                            opts = [o + cs for o in opts]
                    if drop:
                        continue
                    for o in opts:
                        yield [v for (n, v), _ in o if n == 0], ("disj", o), b
        elif s[0] == "ext":
            for e in self.join(s[2], {}):
                for c in self.lits(s[2], e):
                    for v in values(s[1], e, []):
                        yield [v], ("ext", v), []

    def shown(self, T):
        """Shown symbols."""
        sigs = [s[1] for s in self.stms if s[0] == "showsig"]
        out = {a for a in T if not sigs or a[3] and (a[1], len(a[2])) in sigs}
        for s in self.stms:
            if s[0] == "show":
                for e, b in self.bodies(s[2], set()):
                    if all(ht(x, T, T) for x in b):
                        out |= set(values(s[1], e, []))
        return frozenset(out)

    def costs(self, T):
        """Costs by priority."""
        prios, seen = set(), {}
        for s in self.stms:
            if s[0] == "min":
                for w, p, tup, cond in s[1]:
                    for e, b in self.bodies(cond, set()):
                        for x, y, *t in itertools.product(values(w, e, self.undef), values(p, e, self.undef), *(values(t, e, []) for t in tup)):
                            if x[0] != "num" or y[0] != "num":
                                self.undef.append(s)
                                continue
                            prios.add(y[1])
                            if all(ht(z, T, T) for z in b):
                                seen[(x, y, tuple(t))] = True
        return {p: sum(k[0][1] for k in seen if k[1][1] == p) for p in prios}

    def classical(self, T):
        return not any(sm.fun(a[1], a[2], False) in T for a in T if a[3] and a[1])

    def stable(self, bound=11):
        certain = set()
        while True:
            n = len(certain)
            for _, h, b in self.ground:
                if h[0] == "disj" and len(h[1]) == 1 and h[1][0][0][0] == 0 and all(self.surely(x, certain) for x in b) and all(self.surely(("lit",) + c, certain) for c in h[1][0][1]):
                    certain.add(h[1][0][0][1])
            if len(certain) == n:
                break
        # atoms whose truth values determine those of all others
        N = set()
        for _, h, b in self.ground:
            if h[0] != "disj" or len(h[1]) != 1 or h[1][0][0][0] or h[1][0][1]:
                if h[0] == "ext":
                    continue
                for (v, c) in h[1]:
                    v = v[1] if h[0] == "disj" else v
                    N.add(v)
                    N.update(y for n, x in c for y in matches(x, self.P))
            for x in b:
                if x[0] == "lit":
                    if x[1]:
                        N.update(matches(x[2], self.P))
                elif x[0] == "cond":
                    N.update(y for c, l in x[1] for n, v in c + (l or []) for y in matches(v, self.P))
                else:
                    N.update(y for t, c in x[4] for n, v in c for y in matches(v, self.P))
        N = sorted((N & self.P) - certain, key=sm.key)
        if len(N) > bound:
            raise OverflowError
        normal = [(h[1][0][0][1], b) for _, h, b in self.ground if h[0] == "disj" and len(h[1]) == 1 and not h[1][0][0][0] and not h[1][0][1]]

        def close(G, T):
            H = set(G) | certain
            n = -1
            while n != len(H):
                n = len(H)
                for v, b in normal:
                    if v not in H and all(ht(x, H, H if T is None else T) for x in b):
                        H.add(v)
            return H

        out = []
        for k in range(len(N) + 1):
            for c in itertools.combinations(N, k):
                T = close_guess(normal, certain, c, N)
                if T is None or not self.classical(T) or not all(rule(g, T, T) for g in self.ground):
                    continue
                ok = True
                for j in range(k + 1):
                    for h in itertools.combinations(c, j):
                        H = close(h, T)
                        if H < T and all(rule(g, H, T) for g in self.ground):
                            ok = False
                            break
                    if not ok:
                        break
                if ok:
                    out.append(frozenset(T))
        return out

    def surely(self, x, C):
        if x[0] != "lit":
            return False
        if x[1] == 0:
            return any(True for _ in matches(x[2], C))
        return x[1] == 1 and not self.poss(x[2])


def close_guess(normal, certain, G, N):
    """Smallest set closed under the rules whose conditions on the atoms in N hold in G; None if it disagrees with G."""
    N, G = set(N), set(G)
    S = certain | G
    n = -1
    while n != len(S):
        n = len(S)
        for v, b in normal:
            if v not in S and all(ht(x, S, S) for x in b):
                if v in N:
                    return None
                S.add(v)
    return S


def matches(v, S):
    """Atoms in S matching v, where None stands for anything."""

    def ok(a, b):
        if a is None:
            return True
        return a[0] == b[0] and (a == b if a[0] != "fun" else a[1] == b[1] and a[3] == b[3] and len(a[2]) == len(b[2]) and all(map(ok, a[2], b[2])))

    if v in S:
        yield v
    elif hole(v):
        for a in S:
            if ok(v, a):
                yield a


def hole(v):
    return v is None or v[0] == "fun" and any(hole(a) for a in v[2])


def in_(v, S):
    return v in S or any(True for _ in matches(v, S))


def lit(n, v, H, T):
    if n == 0 or n == 3:
        return n == 3 or in_(v, H)
    return not in_(v, T) if n == 1 else in_(v, T)


def conj(ls, H, T):
    return all(lit(n, v, H, T) for n, v in ls)


def aggregate(f, guards, tuples):
    if f == "#count" or f == "#set":
        v = sm.num(len(tuples))
    elif f in ("#sum", "#sum+"):
        v = sm.num(sum(t[0][1] for t in tuples if t[0][0] == "num" and (f == "#sum" or t[0][1] > 0)))
    else:
        v = [t[0] for t in tuples]
        if f == "#min":
            v = min(v, key=sm.key) if v else sm.SUP
        else:
            v = max(v, key=sm.key) if v else sm.INF
    return all(compare(o, g, v) if left else compare(o, v, g) for o, g, left in guards)


def ht(x, H, T):
    if x[0] == "lit":
        return lit(x[1], x[2], H, T)
    if x[0] == "cond":
        return all(
            (not conj(c, W, T) or (l is not None and conj(l, W, T))) for W in ((H, T) if H is not T else (T,)) for c, l in x[1]
        )
    _, n, f, gs, els = x
    at = lambda W: aggregate(f, gs, {t for t, c in els if conj(c, W, T)})
    if n == 0:
        return at(T) and (H is T or at(H))
    return at(T) == (n == 2)


def rule(g, H, T):
    _, h, b = g
    if h[0] == "ext":
        return True
    for W in (H, T) if H is not T else (T,):
        if not all(ht(x, W, T) for x in b):
            continue
        if h[0] == "choice":
            if not all(v in W or v not in T for v, c in h[1] if conj(c, W, T)):
                return False
            if h[2] and not aggregate("#count", h[2], {(v,) for v, c in h[1] if v in T and conj(c, T, T)}):
                return False
        elif not any(lit(n, v, W, T) and conj(c, W, T) for (n, v), c in h[1]):
            return False
    return True


def answer(text, bound=11):
    """(answer sets as frozensets of shown texts with costs, undefined operations)"""
    g = Grounder(parse(text))
    out = set()
    g.shown(g.P), g.costs(g.P)
    for T in g.stable(bound):
        # conditions of show and minimize statements may instantiate further
        out.add((frozenset(sm.text(a) for a in g.shown(T)), tuple(sorted(g.costs(T).items()))))
    return out, g.undef
