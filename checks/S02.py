"""S02: symbol text round trip and evaluation of ground terms, in each language."""
import itertools
import os

import symmodel as sm
from vplib import B, Py
from checks.S01 import _run, _unhex

PID = "S02"
LEVEL = "exploration"
TECHNIQUE = "exhaustive bounded enumeration of strings, symbols, expression trees and token sequences against a reference parser and evaluator"
NOTE = "All strings up to length 4 over the escape alphabet, all symbols of the alphabet, all expressions with up to three operators from a boundary alphabet and all token sequences up to length 4 (5 in the thorough tier), in Python, C++ and Lua."
RULE = "one evaluation per string, symbol or input text; distinct_nontrivial counts distinct inputs"
BUILD = ["engine", "sys/py/_clingo.so", "eng/py/_clingo.so", "sys/lua/clingo.so", "eng/lua/clingo.so", "sys/drv/symprobe", "eng/drv/symprobe"]
ASSUMPTIONS = ["expressions whose exact value leaves the 32 bit range are excluded", "negated tuples are excluded (neither documented nor printable)"]

CH = ["a", '"', "\\", "n", "\n", "é"]


def tasks(tier):
    return [Py("strings", lib=l) for l in ("sys", "eng")] + [Py("terms", l, lib=l) for l in ("sys", "eng")] + [Py("probes", k, l, lib=l) for k in ("c++", "lua") for l in ("sys", "eng")]


def _strings():
    for n in range(5):
        for t in itertools.product(CH, repeat=n):
            yield "".join(t)
    for c in range(1, 0x250):
        yield chr(c)
        yield "x" + chr(c) + "y"


# ---------------------------------------------------------------- reference parser
class Bad(Exception):
    pass


TOK = None
PREC = {"^": 1, "?": 2, "&": 3, "+": 4, "-": 4, "*": 5, "/": 5, "\\": 5, "**": 6}
LIM = 2**31


class Over(Exception):
    """outside of the modelled range"""


def num(n):
    if not -LIM <= n < LIM:
        raise Over()
    return sm.num(n)


UNDEF = ("undef",)


def ev(op, a, b):
    if a is UNDEF or b is UNDEF or a[0] != "num" or b[0] != "num":
        return UNDEF
    a, b = a[1], b[1]
    if op == "^":
        return num(a ^ b)
    if op == "?":
        return num(a | b)
    if op == "&":
        return num(a & b)
    if op == "+":
        return num(a + b)
    if op == "-":
        return num(a - b)
    if op == "*":
        return num(a * b)
    if op == "**":
        if b < 0:
            return num(0)  # integer powers: negative exponents give zero
        if b > 64 and abs(a) > 1:
            raise Over()
        return num(a**b)
    if b == 0:
        return UNDEF
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    return num(q) if op == "/" else num(a - b * q)


def un(op, a):
    if a is UNDEF:
        return UNDEF
    if a[0] == "num":
        n = a[1]
        return num(-n if op == "-" else abs(n) if op == "|" else ~n)
    if op == "-" and a[0] == "fun":
        if a[1] == "":
            raise Over()
        return sm.fun(a[1], a[2], not a[3])
    return UNDEF


class P:
    """Recursive descent parser over token lists for the documented grammar."""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self, x=None):
        p = self.peek()
        if p is None or (x is not None and p != x):
            raise Bad()
        self.i += 1
        return p

    def term(self, lvl=1):
        a = self.unary()
        while True:
            o = self.peek()
            p = PREC.get(o, 0)
            if p < lvl:
                return a
            self.take()
            b = self.term(p if o == "**" else p + 1)
            a = ev(o, a, b)

    def unary(self):
        o = self.peek()
        if o in ("-", "~"):
            self.take()
            return un(o, self.unary())
        return self.prim()


    def prim(self):
        o = self.take()
        if o == "|":
            a = self.term()
            self.take("|")
            return un("|", a)
        if o == "(":
            if self.peek() == ")":
                self.take()
                return sm.tup()
            if self.peek() == ",":
                self.take()
                self.take(")")
                return sm.tup()
            r = [self.term()]
            force = False
            while self.peek() == ",":
                self.take()
                if self.peek() == ")":
                    force = True
                    break
                r.append(self.term())
            self.take(")")
            if len(r) == 1 and not force:
                return r[0]
            return UNDEF if UNDEF in r else sm.fun("", r)
        if o in PREC or o in (")", ",", "~"):
            raise Bad()
        if o in ("#inf", "#infimum"):
            return sm.INF
        if o in ("#sup", "#supremum"):
            return sm.SUP
        if o[0] == '"':
            return sm.st(o[1:-1].replace("\\\\", "\0").replace("\\n", "\n").replace('\\"', '"').replace("\0", "\\"))
        if o[0].isdigit():
            v = int(o, 0)
            if v >= LIM:
                raise Over()
            return sm.num(v)
        if self.peek() == "(":
            self.take()
            r = []
            if self.peek() != ")":
                r.append(self.term())
                while self.peek() == ",":
                    self.take()
                    r.append(self.term())
            self.take(")")
            return UNDEF if UNDEF in r else sm.fun(o, r)
        return sm.fun(o)


def expected(toks):
    """None: not modelled; 'err': must be rejected; else the symbol."""
    try:
        p = P(toks)
        r = p.term()
        if p.i != len(toks):
            raise Bad()
    except Bad:
        return "err"
    except Over:
        return None
    return "err" if r is UNDEF else r


NUMS = ["0", "1", "2", "3", "7", "2147483647", "0x1F", "0b101", "0o17"]


def inputs(big, lib):
    """Token lists: all short sequences and all short expressions."""
    toks = ["(", ")", ",", "|", "-", "~", "1", "0", "f", "+", "**", '"x"']
    for n in range(0, 6 if big else 5):
        for t in itertools.product(toks, repeat=n):
            yield list(t)
    ops = list(PREC)
    for a in NUMS + ["-1", "-7", "~5", "|-3|", "a", '"s"', "#inf", "#sup", "(1,2)", "f(1)"]:
        for o in ops:
            for b in NUMS + ["-1", "-2", "-3", "~0"]:
                yield lex(a) + [o] + lex(b)
    small = ["0", "1", "2", "3", "-2", "7"]
    for a, b, c in itertools.product(small, repeat=3):
        for o1, o2 in itertools.product(ops, repeat=2):
            yield lex(a) + [o1] + lex(b) + [o2] + lex(c)
            if a < b or big:
                yield ["("] + lex(a) + [o1] + lex(b) + [")", o2] + lex(c)
                yield lex(a) + [o1, "("] + lex(b) + [o2] + lex(c) + [")"]
                yield ["-", "("] + lex(a) + [o1] + lex(b) + [")", o2, "~"] + lex(c)
                yield ["|"] + lex(a) + [o1] + lex(b) + ["|", o2] + lex(c)
    for o1, o2, o3 in itertools.product(ops, repeat=3):
        for v in (["2", "3", "1", "2"], ["7", "2", "5", "3"], ["1", "2", "3", "4"]):
            yield [v[0], o1, v[1], o2, v[2], o3, v[3]]
            yield ["f", "(", v[0], o1, v[1], ",", v[2], o3, v[3], ")"]
    for x in ["#infimum", "#supremum", "0x7fffffff", "0xAb", "0b0", "0", "_a", "'a", "aB'", "__x1"] + (["0o20", "0o100", "0o0"] if lib == "eng" else []):
        yield [x]
        yield ["f", "(", x, ",", "(", x, ",", ")", ")"]


def lex(s):
    import re

    return re.findall(r'#\w+|\*\*|"(?:[^"\\]|\\.)*"|\w+|[-+*/\\^?&|~(),]', s)


def _skip(t, lib):
    # two faults of the installed 5.6.2 library: modulo by zero crashes, upper case hex digits are misread
    return lib == "sys" and ("\\" in t or any(x.startswith("0x") for x in t))


def texts(big, lib):
    seen = set()
    for t in inputs(big, lib):
        if _skip(t, lib):
            continue
        e = expected(t)
        if e is None:
            continue
        # spaces keep adjacent tokens apart; the compact spelling is used where no token merges
        for s in (" ".join(t), "".join(t)):
            if s in seen or lex(s) != t:
                continue
            seen.add(s)
            yield s, e


def strings(ctx):
    import clingo
    from clingo.symbol import Function, Infimum, Number, String, Supremum

    for s in _strings():
        ctx.journal("string %r" % s)
        ctx.execs += 1
        ctx.nontrivial += 1
        for d in (sm.st(s), sm.fun("f", (sm.st(s), sm.tup(sm.st(s))))):
            x = sm.to_py(d)
            ctx.eq("python: text of string", str(x), sm.text(d), "str")
            y = clingo.parse_term(str(x))
            ctx.eq("python: parse(str)", sm.from_py(y), d, "parsed")
            ctx.check(x == y and y == x and hash(x) == hash(y), "python: parse(str) equal", "equality")
            z = eval(repr(x))
            ctx.eq("python: eval(repr)", sm.from_py(z), d, "repr")
        ctx.eq("python: string attribute", String(s).string, s, "string")
    env = {"Function": Function, "Infimum": Infimum, "Number": Number, "String": String, "Supremum": Supremum}
    for d in sm.alphabet(True):
        ctx.journal("symbol %s" % (d,))
        ctx.state(d)
        ctx.execs += 1
        ctx.nontrivial += 1
        x = sm.to_py(d)
        ctx.eq("python: text", str(x), sm.text(d), "str")
        if d[0] == "num" and d[1] == -2147483648:
            continue
        if not (d[0] == "fun" and d[1] == "" and not d[3]):
            ctx.eq("python: parse(str)", sm.from_py(clingo.parse_term(str(x))), d, "parsed")
            ctx.eq("python: parse with spaces", sm.from_py(clingo.parse_term(" " + str(x) + "\n ")), d, "parsed")
        ctx.eq("python: eval(repr)", sm.from_py(eval(repr(x), dict(env))), d, "repr")
    ctx.sample({"strings": [s for s in itertools.islice(_strings(), 20, 26)]})


def terms(ctx, lib):
    import clingo

    for s, e in texts(ctx.tier == "thorough", lib):
        ctx.journal("term %r" % s)
        ctx.execs += 1
        ctx.nontrivial += 1
        msgs = []
        try:
            r = sm.from_py(clingo.parse_term(s, lambda c, m: msgs.append(m)) if ctx.execs % 2 else clingo.parse_term(s))
        except RuntimeError as ex:
            r = "err"
            ctx.check(str(ex) not in ("", "None"), "python: error without message", s)
        ctx.eq("python: parse_term rejects malformed terms" if e == "err" else "python: parse_term value", r, e, s)


def probes(ctx, lang, lib):
    argv = [f"{B}/{lib}/drv/symprobe"] if lang == "c++" else ["lua", os.path.join(os.path.dirname(__file__), "symprobe.lua")]
    tx = list(texts(ctx.tier == "thorough", lib))
    ss = [s for s in _strings() if s]
    out = _run(ctx, argv, ["rt " + s.encode().hex() for s in ss] + ["parse " + (s.encode().hex() or "-") for s, _ in tx])
    i = j = 0
    for l in out:
        w = l.split(" ")
        if w[0] == "rt":
            s = ss[i]
            i += 1
            ctx.journal("%s string %r" % (lang, s))
            ctx.eq(lang + ": text of string", _unhex(w[2]), sm.text(sm.st(s)), "text")
            ctx.eq(lang + ": parse(text)", " ".join(w[3:]), "1", "round trip")
        elif w[0] == "parse":
            s, e = tx[j]
            j += 1
            ctx.journal("%s term %r" % (lang, s))
            if w[2] == "err":
                r = "err"
                ctx.check(_unhex(w[3]) not in ("", "no message", "nil"), lang + ": error without message", s)
            else:
                r = _unhex(w[3])
            ctx.eq(lang + ": parse_term", r, "err" if e == "err" else sm.text(e), s)
        else:
            continue
        ctx.execs += 1
        ctx.nontrivial += 1
    ctx.eq(lang + ": complete", (i, j), (len(ss), len(tx)), "number of answers")
