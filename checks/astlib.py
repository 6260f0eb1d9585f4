"""Syntax trees: reference model, executors for Python and C++, and the statement grammar.

A history is a sequence of commands on registers holding nodes.  Ref executes it on
plain Python objects (sharing is object identity), PyAst through clingo.ast, CppAst
through clingo.hh (checks/cppast.cc).  Values are tokens:
  i<int> s<string> y<symbol> L<k> r<register> o (none) N<r>,<r>.. S<s>\x02<s>..
"""
import copy
import os
import re
import subprocess

OLD = "/eng" not in os.environ.get("LD_LIBRARY_PATH", "")

SIG = {k: [a.split(":") for a in v.split()] for k, v in {
    "Id": "location:L name:s",
    "Variable": "location:L name:s",
    "SymbolicTerm": "location:L symbol:y",
    "UnaryOperation": "location:L operator_type:i argument:n",
    "BinaryOperation": "location:L operator_type:i left:n right:n",
    "Interval": "location:L left:n right:n",
    "Function": "location:L name:s arguments:N external:i",
    "Pool": "location:L arguments:N",
    "BooleanConstant": "value:i",
    "SymbolicAtom": "symbol:n",
    "Comparison": "term:n guards:N",
    "Guard": "comparison:i term:n",
    "ConditionalLiteral": "location:L literal:n condition:N",
    "Aggregate": "location:L left_guard:o elements:N right_guard:o",
    "BodyAggregateElement": "terms:N condition:N",
    "BodyAggregate": "location:L left_guard:o function:i elements:N right_guard:o",
    "HeadAggregateElement": "terms:N condition:n",
    "HeadAggregate": "location:L left_guard:o function:i elements:N right_guard:o",
    "Disjunction": "location:L elements:N",
    "TheorySequence": "location:L sequence_type:i terms:N",
    "TheoryFunction": "location:L name:s arguments:N",
    "TheoryUnparsedTermElement": "operators:S term:n",
    "TheoryUnparsedTerm": "location:L elements:N",
    "TheoryGuard": "operator_name:s term:n",
    "TheoryAtomElement": "terms:N condition:N",
    "TheoryAtom": "location:L term:n elements:N guard:o",
    "Literal": "location:L sign:i atom:n",
    "TheoryOperatorDefinition": "location:L name:s priority:i operator_type:i",
    "TheoryTermDefinition": "location:L name:s operators:N",
    "TheoryGuardDefinition": "operators:S term:s",
    "TheoryAtomDefinition": "location:L atom_type:i name:s arity:i term:s guard:o",
    "Rule": "location:L head:n body:N",
    "Definition": "location:L name:s value:n is_default:i",
    "ShowSignature": "location:L name:s arity:i positive:i",
    "ShowTerm": "location:L term:n body:N",
    "Minimize": "location:L weight:n priority:n terms:N body:N",
    "Script": "location:L name:s code:s",
    "Program": "location:L name:s parameters:N",
    "External": "location:L atom:n body:N external_type:n",
    "Edge": "location:L node_u:n node_v:n body:N",
    "Heuristic": "location:L atom:n body:N bias:n priority:n modifier:n",
    "ProjectAtom": "location:L atom:n body:N",
    "ProjectSignature": "location:L name:s arity:i positive:i",
    "Defined": "location:L name:s arity:i positive:i",
    "TheoryDefinition": "location:L name:s terms:N atoms:N",
    "Comment": "location:L value:s comment_type:i",
}.items()}
TYPES = {t: i for i, t in enumerate(SIG)}
SYMKEY = {"#inf": (0,), "0": (1,), '"s"': (2,), "f(1,-a)": (3,)}  # the order of the symbols used
CHILD = {t: [(a, k) for a, k in v if k in "noN"] for t, v in SIG.items()}
LOCS = [("<string>", 1, 2, "<string>", 3, 4), ("f", 10, 20, "g h", 30, 40), ("<string>", 1, 1, "<string>", 1, 1)]


def types():
    return [t for t in SIG if t != "Comment" or not OLD]


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


def loc(l):
    return "<%s:%d:%d-%s:%d:%d>" % tuple(l)


class N:
    """A reference node."""

    def __init__(self, t, **kw):
        self.t = t
        self.a = kw

    def dump(self, locs=True):
        out = []
        for a, k in SIG[self.t]:
            v = self.a[a]
            if k == "L":
                if not locs:
                    continue
                v = loc(v)
            elif k == "i":
                v = str(v)
            elif k == "s":
                v = q(v)
            elif k == "y":
                v = "`%s`" % v
            elif k == "N":
                v = "[" + ";".join(x.dump(locs) for x in v) + "]"
            elif k == "S":
                v = "[" + ";".join(q(x) for x in v) + "]"
            else:
                v = "-" if v is None else v.dump(locs)
            out.append(a + "=" + v)
        return "%s{%s}" % (self.t, ",".join(out))

    def copy(self):
        return N(self.t, **{a: list(v) if isinstance(v, list) else v for a, v in self.a.items()})

    def deep(self):
        c = lambda v: v.deep() if isinstance(v, N) else [c(x) for x in v] if isinstance(v, list) else v
        if OLD:  # the installed library shares optional children here (repaired in /repo's)
            return N(self.t, **{a: v if (a, "o") in CHILD[self.t] else c(v) for a, v in self.a.items()})
        return N(self.t, **{a: c(v) for a, v in self.a.items()})

    def key(self):
        """Orders nodes by type, then attribute by attribute without locations."""
        out = [TYPES[self.t]]
        for a, k in SIG[self.t]:
            v = self.a[a]
            if k != "L":
                out.append(v if k == "i" else v.encode() if k == "s" else SYMKEY[v] if k == "y" else [x.encode() for x in v] if k == "S" else [x.key() for x in v] if k == "N" else [] if v is None else [v.key()] if k == "o" else v.key())
        return out

    def children(self):
        for a, k in CHILD[self.t]:
            v = self.a[a]
            if isinstance(v, list):
                for x in v:
                    yield x
            elif v is not None:
                yield v

    def walk(self):
        yield self
        for c in self.children():
            yield from c.walk()


def parse_dump(text):
    """Rebuilds the reference node a dump describes."""
    pos = [0]

    def string():
        pos[0] += 1
        r = ""
        while text[pos[0]] != '"':
            if text[pos[0]] == "\\":
                pos[0] += 1
                r += {"n": "\n"}.get(text[pos[0]], text[pos[0]])
            else:
                r += text[pos[0]]
            pos[0] += 1
        pos[0] += 1
        return r

    def value(k):
        c = text[pos[0]]
        if k == "L":
            e = text.index(">", pos[0])
            r = text[pos[0] + 1:e]
            pos[0] = e + 1
            # file names may contain '>' (as in <string>), so find the true end
            while r.count(":") < 4:
                e = text.index(">", pos[0])
                r += ">" + text[pos[0]:e]
                pos[0] = e + 1
            m = re.fullmatch(r"(.*):(\d+):(\d+)-(.*):(\d+):(\d+)", r, re.S)
            return (m[1], int(m[2]), int(m[3]), m[4], int(m[5]), int(m[6]))
        if k == "i":
            s = pos[0]
            while text[pos[0]] in "-0123456789":
                pos[0] += 1
            return int(text[s:pos[0]])
        if k == "s":
            return string()
        if k == "y":
            s = pos[0] + 1
            i = s
            inq = False
            while inq or text[i] != "`":
                if text[i] == '"':
                    inq = not inq
                elif text[i] == "\\" and inq:
                    i += 1
                i += 1
            pos[0] = i + 1
            return text[s:i]
        if k in "NS":
            r = []
            pos[0] += 1
            while text[pos[0]] != "]":
                if text[pos[0]] == ";":
                    pos[0] += 1
                r.append(node() if k == "N" else string())
            pos[0] += 1
            return r
        if c == "-":
            pos[0] += 1
            return None
        return node()

    def node():
        e = text.index("{", pos[0])
        t = text[pos[0]:e]
        pos[0] = e + 1
        kw = {}
        for a, k in SIG[t]:
            assert text.startswith(a + "=", pos[0]), (text, pos[0], a)
            pos[0] += len(a) + 1
            kw[a] = value(k)
            if text[pos[0]] == ",":
                pos[0] += 1
        assert text[pos[0]] == "}", (text, pos[0])
        pos[0] += 1
        return N(t, **kw)

    n = node()
    assert pos[0] == len(text), (text, pos[0])
    return n


def values(tok, regs):
    c, v = tok[0], tok[1:]
    if c == "i":
        return int(v)
    if c in "sy":
        return v
    if c == "L":
        return LOCS[int(v)]
    if c == "r":
        return regs[int(v)]
    if c == "o":
        return None
    if c == "N":
        return [regs[int(x)] for x in v.split(",") if x]
    return v.split("\x02") if v else []


class Err(Exception):
    pass


REPL = {"s": "zz", "i": 1, "y": "zz", "L": LOCS[1]}


class Ref:
    """Executes commands on reference nodes."""

    def __init__(self):
        self.r = {}

    def do(self, cmd, *a):
        try:
            return getattr(self, "c_" + cmd)(*a)
        except (Err, IndexError, ValueError, KeyError):
            return "E"

    def c_reset(self):
        self.r = {}
        return ""

    def c_new(self, d, t, *vs):
        self.r[int(d)] = N(t, **{k[0]: values(v, self.r) for k, v in zip(SIG[t], vs)})
        return ""

    def c_load(self, d, dump):
        self.r[int(d)] = parse_dump(dump)
        return ""

    def c_dump(self, x):
        return self.r[int(x)].dump()

    def c_set(self, x, attr, v):
        n = self.r[int(x)]
        if attr not in n.a:
            raise Err()
        v = values(v, self.r)
        n.a[attr] = list(v) if isinstance(v, list) else v
        return ""

    def c_assignseq(self, x, attr, y, attr2):
        self.r[int(x)].a[attr] = list(self.r[int(y)].a[attr2])
        return ""

    def c_get(self, d, x, attr):
        n = self.r[int(x)]
        if attr not in n.a:
            raise Err()
        v = n.a[attr]
        if v is None:
            return "none"
        self.r[int(d)] = v
        return ""

    def c_at(self, d, x, attr, i):
        self.r[int(d)] = self.r[int(x)].a[attr][int(i)]
        return ""

    def c_copy(self, d, x):
        self.r[int(d)] = self.r[int(x)].copy()
        return ""

    def c_deep(self, d, x):
        self.r[int(d)] = self.r[int(x)].deep()
        return ""

    def c_assign(self, d, x):
        self.r[int(d)] = self.r[int(x)]
        return ""

    def c_eq(self, x, y):
        return str(int(self.r[int(x)].dump(False) == self.r[int(y)].dump(False)))

    def c_seq(self, x, attr, op, *a):
        l = self.r[int(x)].a[attr]
        sh = lambda v: q(v) if isinstance(v, str) else v.dump()
        val = lambda t: values(t, self.r)
        if op == "len":
            return str(len(l))
        if op == "get":
            return sh(l[int(a[0])])
        if op == "set":
            l[int(a[0])] = val(a[1])
        elif op == "del":
            del l[int(a[0])]
        elif op == "ins":
            l.insert(int(a[0]), val(a[1]))
        elif op == "app":
            l.append(val(a[0]))
        elif op == "pop":
            return sh(l.pop(int(a[0])) if a else l.pop())
        elif op == "clear":
            l.clear()
        elif op == "ext":
            l.extend(list(val(a[0])))
        elif op == "rev":
            l.reverse()
        elif op == "rem":
            self._rem(l, val(a[0]))
        elif op == "idx":
            return str(self._keys(l).index(self._key(val(a[0]))))
        elif op == "cnt":
            return str(self._keys(l).count(self._key(val(a[0]))))
        elif op == "in":
            return str(int(self._key(val(a[0])) in self._keys(l)))
        elif op == "iter":
            return ";".join(sh(x) for x in l)
        elif op == "riter":
            return ";".join(sh(x) for x in reversed(l))
        elif op == "sl":
            return ";".join(sh(x) for x in l[self._sl(a[0])])
        elif op == "slsl":
            return ";".join(sh(x) for x in l[self._sl(a[0])][self._sl(a[1])])
        elif op == "slget":
            return sh(l[self._sl(a[0])][int(a[1])])
        elif op == "sllen":
            return str(len(l[self._sl(a[0])]))
        elif op == "slset":
            l[range(len(l))[self._sl(a[0])][int(a[1])]] = val(a[2])
        elif op == "sldel":
            del l[range(len(l))[self._sl(a[0])][int(a[1])]]
        elif op == "slins":
            r = range(len(l))[self._sl(a[0])]
            k = int(a[1])
            k = max(k + len(r), 0) if k < 0 else min(k, len(r))
            l.insert(r[k] if k < len(r) else r[-1] + 1 if r else r.start, val(a[2]))
        else:
            raise AssertionError(op)
        return ""

    def _sl(self, t):
        return slice(*[None if x == "" else int(x) for x in t.split(":")])

    def _key(self, v):
        return v if isinstance(v, str) else v.dump(False)

    def _keys(self, l):
        return [self._key(x) for x in l]

    def _rem(self, l, v):
        del l[self._keys(l).index(self._key(v))]

    def c_visit(self, x, skip=""):
        """Preorder list of visited nodes; children of nodes of type skip are not visited."""
        out = []

        def go(n):
            out.append(n.dump())
            if n.t != skip:
                for c in n.children():
                    go(c)
        go(self.r[int(x)])
        return "\x03".join(out)

    def c_trans(self, d, x, t, how):
        """Rewrites every node of type t; how: same, copy (no change in content), set,
        reg K (replaced by register K), deepset (children first, then set)."""
        calls = []
        how, _, arg = how.partition(" ")

        def go(n):
            if n.t == t:
                calls.append(n.dump())
                if how == "same":
                    return n
                if how == "reg":
                    return self.r[int(arg)]
                if how == "deepset":
                    n = kids(n)
                n = n.copy()
                a, k = next(((a, k) for a, k in SIG[t] if k in "siyL"), (None, None))
                if a and how != "copy":
                    n.a[a] = REPL[k]
                return n
            return kids(n)

        def kids(n):
            up = {}
            for a, k in CHILD[n.t]:
                v = n.a[a]
                if v is None:
                    continue
                w = [go(x) for x in v] if k == "N" else go(v)
                if (any(p is not q for p, q in zip(v, w)) if k == "N" else w is not v):
                    up[a] = w
            if not up:
                return n
            m = n.copy()
            m.a.update(up)
            return m

        src = self.r[int(x)]
        res = go(src)
        self.r[int(d)] = res
        return "%d %s" % (res is src, "\x03".join(calls))


class PyAst:
    """Executes commands through clingo.ast."""

    def __init__(self):
        import clingo
        import clingo.ast as A

        self.clingo, self.A = clingo, A
        self.r = {}

    def dump(self, n, locs=True):
        A = self.A
        t = str(n.ast_type).replace("ASTType.", "")
        out = []
        for (a, k), kk in zip(SIG[t], n.keys()):
            if kk != a:
                return "keys of %s: %s" % (t, n.keys())
            v = getattr(n, a)
            if k == "L":
                if not locs:
                    continue
                v = loc((v.begin.filename, v.begin.line, v.begin.column, v.end.filename, v.end.line, v.end.column))
            elif k == "i":
                assert isinstance(v, int)
                v = "%d" % v
            elif k == "s":
                v = q(v)
            elif k == "y":
                v = "`%s`" % v
            elif k == "N":
                v = "[" + ";".join(self.dump(x, locs) for x in v) + "]"
            elif k == "S":
                v = "[" + ";".join(q(x) for x in v) + "]"
            else:
                v = "-" if v is None else self.dump(v, locs)
            out.append(a + "=" + v)
        return "%s{%s}" % (t, ",".join(out))

    def val(self, tok):
        v = values(tok, self.r)
        if tok[0] == "y":
            return self.clingo.parse_term(v)
        if tok[0] == "L":
            return self.pyloc(v)
        return v

    def pyloc(self, v):
        P = self.A.Position
        return self.A.Location(P(v[0], v[1], v[2]), P(v[3], v[4], v[5]))

    def do(self, cmd, *a):
        try:
            return getattr(self, "c_" + cmd)(*a)
        except RecursionError:
            raise
        except (AttributeError, TypeError, IndexError, KeyError, ValueError, RuntimeError, OverflowError) as e:
            self.last = e
            return "E"

    def c_reset(self):
        self.r = {}
        return ""

    def c_new(self, d, t, *vs):
        self.r[int(d)] = getattr(self.A, t)(*[self.val(v) for v in vs])
        return ""

    def from_ref(self, n):
        out = []
        for a, k in SIG[n.t]:
            v = n.a[a]
            if k == "L":
                v = self.pyloc(v)
            elif k == "y":
                v = self.clingo.parse_term(v)
            elif k == "N":
                v = [self.from_ref(x) for x in v]
            elif k in "no" and v is not None:
                v = self.from_ref(v)
            out.append(v)
        return getattr(self.A, n.t)(*out)

    def c_load(self, d, dump):
        self.r[int(d)] = self.from_ref(parse_dump(dump))
        return ""

    def c_dump(self, x):
        return self.dump(self.r[int(x)])

    def c_str(self, x):
        return str(self.r[int(x)])

    def c_set(self, x, attr, v):
        setattr(self.r[int(x)], attr, self.val(v))
        return ""

    def c_assignseq(self, x, attr, y, attr2):
        setattr(self.r[int(x)], attr, getattr(self.r[int(y)], attr2))
        return ""

    def c_get(self, d, x, attr):
        v = getattr(self.r[int(x)], attr)
        if v is None:
            return "none"
        self.r[int(d)] = v
        return ""

    def c_at(self, d, x, attr, i):
        self.r[int(d)] = getattr(self.r[int(x)], attr)[int(i)]
        return ""

    def c_copy(self, d, x):
        self.r[int(d)] = copy.copy(self.r[int(x)])
        return ""

    def c_deep(self, d, x):
        self.r[int(d)] = copy.deepcopy(self.r[int(x)])
        return ""

    def c_assign(self, d, x):
        self.r[int(d)] = self.r[int(x)]
        return ""

    def c_eq(self, x, y):
        a, b = self.r[int(x)], self.r[int(y)]
        return str(int(a == b))

    def c_cmp(self, x, y):
        a, b = self.r[int(x)], self.r[int(y)]
        return "%d%d%d%d%d%d%d" % (a == b, a != b, a < b, a <= b, a > b, a >= b, hash(a) == hash(b))

    def c_seq(self, x, attr, op, *a):
        l = getattr(self.r[int(x)], attr)
        sh = lambda v: q(v) if isinstance(v, str) else self.dump(v)
        val = self.val
        sl = lambda t: slice(*[None if y == "" else int(y) for y in t.split(":")])
        if op == "len":
            return str(len(l))
        if op == "get":
            return sh(l[int(a[0])])
        if op == "set":
            l[int(a[0])] = val(a[1])
        elif op == "del":
            del l[int(a[0])]
        elif op == "ins":
            l.insert(int(a[0]), val(a[1]))
        elif op == "app":
            l.append(val(a[0]))
        elif op == "pop":
            return sh(l.pop(int(a[0])) if a else l.pop())
        elif op == "clear":
            l.clear()
        elif op == "ext":
            l.extend(val(a[0]))
        elif op == "rev":
            l.reverse()
        elif op == "rem":
            l.remove(val(a[0]))
        elif op == "idx":
            return str(l.index(val(a[0])))
        elif op == "cnt":
            return str(l.count(val(a[0])))
        elif op == "in":
            return str(int(val(a[0]) in l))
        elif op == "iter":
            return ";".join(sh(y) for y in l)
        elif op == "riter":
            return ";".join(sh(y) for y in reversed(l))
        elif op == "sl":
            return ";".join(sh(y) for y in l[sl(a[0])])
        elif op == "slsl":
            return ";".join(sh(y) for y in l[sl(a[0])][sl(a[1])])
        elif op == "slget":
            return sh(l[sl(a[0])][int(a[1])])
        elif op == "sllen":
            return str(len(l[sl(a[0])]))
        elif op == "slset":
            l[sl(a[0])][int(a[1])] = val(a[2])
        elif op == "sldel":
            del l[sl(a[0])][int(a[1])]
        elif op == "slins":
            l[sl(a[0])].insert(int(a[1]), val(a[2]))
        else:
            raise AssertionError(op)
        return ""

    def c_visit(self, x, skip=""):
        out = []
        dump = self.dump

        class T(self.A.Transformer):
            def visit(s, n, *a, **k):
                if a != (7,) or k != {"key": "v"}:
                    out.append("arguments not passed: %r %r" % (a, k))
                out.append(dump(n))
                if str(n.ast_type) == "ASTType." + skip:
                    return n
                return super().visit(n, *a, **k)

        src = self.r[int(x)]
        if T()(src, 7, key="v") is not src:
            out.append("result is another object")
        return "\x03".join(out)

    def c_trans(self, d, x, t, how):
        calls = []
        how, _, arg = how.partition(" ")
        py = self

        def visit(s, n, *a, **k):
            if a != (7,) or k != {"key": "v"}:
                calls.append("arguments not passed: %r %r" % (a, k))
            calls.append(py.dump(n))
            if how == "same":
                return n
            if how == "reg":
                return py.r[int(arg)]
            if how == "deepset":
                n = n.update(**s.visit_children(n, *a, **k))
            at, kd = next(((at, kd) for at, kd in SIG[t] if kd in "siyL"), (None, None))
            if not at or how == "copy":
                return copy.copy(n)
            v = REPL[kd]
            v = py.pyloc(v) if kd == "L" else py.clingo.parse_term(v) if kd == "y" else v
            return n.update(**{at: v})

        T = type("T", (self.A.Transformer,), {"visit_" + t: visit})
        src = self.r[int(x)]
        res = T().visit(src, 7, key="v")
        self.r[int(d)] = res
        return "%d %s" % (res is src, "\x03".join(calls))

    def c_parse(self, text):
        """Parses into registers 0.., returns dump and text of each statement."""
        out = []
        self.r = {}

        def cb(n):
            self.r[len(self.r)] = n

        try:
            self.A.parse_string(text, cb, logger=lambda c, m: None)
        except RuntimeError as e:
            return "error"
        return "\x03".join(self.dump(n) + "\x04" + str(n) for n in self.r.values())

    def c_files(self, *files):
        self.r = {}

        def cb(n):
            self.r[len(self.r)] = n

        try:
            self.A.parse_files(list(files), cb, logger=lambda c, m: None)
        except RuntimeError as e:
            return "error"
        return "\x03".join(self.dump(n) + "\x04" + str(n) for n in self.r.values())

    def c_unpool(self, x, how):
        """Unpools into registers 100.., how: 2 flags."""
        args = {"11": {}, "10": {"condition": False}, "01": {"other": False}, "00": {"other": False, "condition": False}}[how]
        l = self.r[int(x)].unpool(**args)
        for i, n in enumerate(l):
            self.r[100 + i] = n
        return "\x03".join(self.dump(n) + "\x04" + str(n) for n in l)


class CppAst:
    """Executes commands through clingo.hh (checks/cppast.cc)."""

    def __init__(self):
        lib = "sys" if OLD else "eng"
        V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.exe = os.path.join(V, ".build", lib, "drv", "cppast")
        self.p = None

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def do(self, *cmd):
        return self.many([cmd])[0]

    def many(self, cmds):
        # small batches so that neither side blocks writing
        return [g for i in range(0, len(cmds), 100) for g in self.batch(cmds[i : i + 100])] if len(cmds) > 100 else self.batch(cmds)

    def batch(self, cmds):
        if self.p is None:
            self.start()
        esc = lambda s: str(s).replace("\\", "\\\\").replace("\n", "\\n").replace("\t", "\\t")
        out = []
        try:
            self.p.stdin.write("".join("\t".join(esc(x) for x in c) + "\n" for c in cmds).encode())
            self.p.stdin.flush()
            for _ in cmds:
                l = self.p.stdout.readline()
                if not l:
                    raise BrokenPipeError
                out.append(l[:-1].decode().replace("\x05", "\n"))
        except BrokenPipeError:
            rc = self.p.wait()
            self.p = None
            out += ["crash (exit code %d)" % rc] * (len(cmds) - len(out))
        return out


# ---------------------------------------------------------------- grammar

LEAF = ["1", "a", "X", '"s\\n\\"\\\\"', "#inf", "#sup", "()"]
FORMS1 = ["-(%s)", "~(%s)", "|%s|", "f(%s)", "(%s,)", "@g(%s)", "-f(%s)", "f((%s))"]
FORMS2 = ["(%s+%s)", "(%s-%s)", "(%s*%s)", "(%s/%s)", "(%s\\%s)", "(%s**%s)", "(%s&%s)", "(%s?%s)", "(%s^%s)", "(%s..%s)", "f(%s,%s)", "(%s,%s)", "f(%s;%s)", "(%s;%s)", "f(;%s,%s)", "f((%s;),(%s;1))", "@g(%s;%s)"]
BARE2 = ["%s+%s", "%s-%s", "%s*%s", "%s/%s", "%s\\%s", "%s**%s", "%s&%s", "%s?%s", "%s^%s", "%s..%s"]
BARE1 = ["-%s", "~%s", "|%s|"]


def terms(depth, leaves=None):
    leaves = LEAF if leaves is None else leaves
    out = list(leaves)
    if depth == 0:
        return out
    sub = terms(depth - 1, leaves[:3])
    out += [f % t for f in FORMS1 for t in sub]
    few = sub if depth == 1 else ["1", "X"]
    out += [f % (t, u) for f in FORMS2 for t in sub for u in few]
    if depth > 1:
        out += [f % (u, t) for f in FORMS2 for t in sub for u in few]
    return out


def bare_terms():
    """Unparenthesized operator combinations: their text must keep their structure."""
    ops1, ops2 = BARE1, BARE2
    two = [f % ("1", "X") for f in ops2]
    out = [f % ("X" if "|" in f or True else "", ) for f in ops1]
    out += two
    for f in ops2:
        for g in ops2:
            out.append(f % ("1", g % ("X", "a")))
            out.append(g % (f % ("1", "X"), "a"))
        for g in ops1:
            out.append(f % (g % "1", "X"))
            out.append(f % ("1", g % "X"))
            out.append(g % (f % ("1", "X")))
    return out


SIMPLE = ["p", "-p", "p(1)", "-p(X,a)", "p(1;2)", "p(f(1;2),3)", "1<2", "X!=1", "1<=X<3", "X=1>=0!=2", "#true", "#false"]
SIGNS = ["", "not ", "not not "]
LITS = [s + a for s in SIGNS for a in SIMPLE]
CONDS = ["", ":", ":q", ":q,not r(X)", ":X<1"]
GUARDS = [("", ""), ("1", ""), ("", "2"), ("1", "2"), ("1<", ""), ("X!=", ">=3"), ("", "<2"), ("1=", "=2"), ("", "=X"), (">", "")]
GUARDS = [g for g in GUARDS if g != (">", "")]
SETS = ["", "a", "a;b", "a:b", "a:b,not c;d", "not a:b", "not not p(X):", "1<2:a", "p(1;2)"]
FUNS = ["#count", "#sum", "#sum+", "#min", "#max"]
BELEMS = ["", "1", "X", "1,X", "1,X:p", ":p", "1:p,not q", "1;2", "1:p;X,2:q,X<2", ":", "f(1;2):p", "1:"]
HELEMS = ["", "1:p", "1,X:p:q", "1:not p:q,not r", ":p", "1:p;2:q:r", "1:1<2:p", "1,2:p(X):q(X)"]
THELEMS = ["", "1", "1;2", "1,2", "1:p", "1,2:p,not q", ":p", "1:;2:q", "f(X),[1,2]:p", ":"]
THTERMS = ["1", "X", "a", '"s"', "#inf", "()", "(1,)", "(1,2)", "[]", "[1]", "[1,a]", "{}", "{1,2}", "f(X)", "f(1,[a])", "-1", "- X", "1+2", "1+ -2*a", "not 1 <= 2", "(1+2)*3", "f(1+2)", "<? 1 ?> 2", "-(1+2)"]
THGUARDS = ["", "<= 1", "= X+1", "!= f(1)", "<> 2"]
THNAMES = ["&t", "&t(1)", "&t(X,a)", "&t(f(1;2))"]
THEORY = [
    "#theory t{}.", "#theory t{x{}}.", "#theory t{x{+ :1,unary}}.", "#theory t{x{- :0,unary;+ :1,binary,left;** :2,binary,right}}.",
    "#theory t{x{};&a/0:x,head}.", "#theory t{x{};&a/0:x,body;&b/2:x,any;&c/1:x,directive}.", "#theory t{x{};&a/0:x,{<=,=},x,any}.", "#theory t{x{};y{};&a/0:x,{},y,head}.", "#theory t{x{not:1,unary;<? :2,binary,left}}.",
]


def lits_mix():
    return ["p", "not q(X)", "X=1"]


def heads():
    out = list(LITS) + [""]
    out += ["a;b", "a;not b;c", "a:b;c", "a:b,not c;d:e", "a:;b", "p(1;2);q", "a|b", "not not a;b:#true", "1<2;a", "a:b"]
    out += ["%s{%s}%s" % (l, s, r) for l, r in GUARDS for s in SETS]
    out += ["%s%s{%s}%s" % (l, f, e, r) for f in FUNS for l, r in GUARDS for e in (HELEMS if (l, r) in (("", ""), ("1<", "")) else HELEMS[1:3])]
    out += theory_atoms()
    return out


def theory_atoms():
    out = ["%s{%s}%s" % (n, e, g) for n in THNAMES[:2] for e in THELEMS for g in (THGUARDS if e in ("", "1") else THGUARDS[:2])]
    out += ["%s{1:p}" % n for n in THNAMES] + THNAMES
    out += ["&t{%s}" % t for t in THTERMS] + ["&t{%s,%s}" % (t, u) for t in THTERMS[:4] for u in THTERMS[-6:]]
    return out


def bodies():
    out = list(LITS)
    out += [a + c for a in ("p", "not p(X)", "not not p", "1<2", "X=1", "#false") for c in CONDS[1:]]
    for s in SIGNS:
        out += ["%s%s{%s}%s" % (s, l, e, r) for l, r in GUARDS for e in (SETS if s == "" else SETS[3:5])]
        out += ["%s%s%s{%s}%s" % (s, l, f, e, r) for f in FUNS for l, r in (GUARDS if s == "" else GUARDS[3:5]) for e in (BELEMS if (l, r) in (("", ""), ("X!=", ">=3")) else BELEMS[3:5])]
        out += [s + t for t in (theory_atoms() if s == "" else theory_atoms()[::9])]
    out += ["p,q", "p;q", "p:q;r", "p:q,r", "a,b;c:d;not e"]
    return out


def statements(depth=1):
    """(text, number of nodes it parses to, whether it stands on its own) for every statement of the grammar."""
    out = []
    add = lambda t, n=1: out.append((t, n))
    for t in terms(depth) + bare_terms():
        add("p(%s):-q(X)." % t)
    for t in terms(1, ["1", "X"])[::3]:
        for f in ("p:-q(X),%s<2.", "p:-q(X),2=%s.", "#show %s:q(X).", ":~q(X).[%s]", "#minimize{1@%s,X:q(X)}.", "p:-1#sum{%s:q(X)}.", "&t(%s){}:-q(X).", "{p(%s):q(X)}.", "p(%s;1):-q(X).", "#external p(%s):q(X).[true]", "#edge(%s,X):q(X).", "#heuristic p:q(X).[%s@1,true]"):
            add(f % t)
    for h in heads():
        add(h + "." if h else "#false.")
        add(h + ":-q(X),not r(X).")
    for b in bodies():
        add("h:-%s." % b)
        add("h(X):-q(X);%s." % b)
    for b in bodies()[::7]:
        add(":-%s." % b)
        add(":~%s.[1]" % b)
        add("#show X:q(X);%s." % b)
        add("#external h(X):q(X);%s.[true]" % b)
        add("#edge(1,2):%s." % b)
        add("#heuristic h:%s.[1@2,level]" % b)
        add("#project h:%s." % b)
    for a in ("p", "-p", "p(1,a)", "p(X)"):
        for c in ("", ":q(X)", ":q,not r"):
            for e in ("", "[true]", "[false]", "[free]", "[release]", "[X]"):
                add("#external %s%s.%s" % (a, c, e))
            for m in ("1,true", "-1,false", "2@3,level", "X,sign", "1@X,factor", "1,init", "1,Y"):
                add("#heuristic %s%s.[%s]" % (a, c, m))
            add("#project %s%s." % (a, c))
        for c in ("", ":q(X)", ":q,not r"):
            add("#show %s%s." % (a, c))
    for n in ("p/0", "p/2", "-p/1"):
        for k in ("#show", "#project", "#defined"):
            add("%s %s." % (k, n))
    add("#show.")
    for v in ("1", "a", "f(1,-a)", '"s"', "1+2", "(1,2)", "-b", "#inf"):
        add("#const c=%s." % v)
        add("#const c=%s.[default]" % v)
        add("#const c=%s.[override]" % v)
    for w in ("1", "X", "-1", "1@2", "X@Y", "1@2,X", "1,a,X", "1+1@-1,f(X)"):
        add(":~q(X).[%s]" % w)
        add(":~q(X),not r(X).[%s]" % w)
        for k in ("minimize", "maximize"):
            add("#%s{%s:q(X)}." % (k, w))
            add("#%s{%s:q(X),not r}." % (k, w))
            add("#%s{%s}." % (k, w))
            add("#%s{%s:q(X);1:p}." % (k, w), 2)
            add("#%s{%s:q(X);1;2@3:p,q}." % (k, w), 3)
    for k in ("minimize", "maximize"):
        add("#%s{}." % k, 0)
    add(":~.[1]")
    for u in ("1,2", "a,X", "f(1),(1,2)", "1,(1,2)"):
        add("#edge(%s)." % u)
        add("#edge(%s):q(X),not r." % u)
    add("#edge(1,2;3,4).", 2)
    add("#edge(1,2;3,4;a,b):p.", 3)
    for n in ("base", "x", "x(a)", "x(a,b)", "x()"):
        add("#program %s." % n)
    for l in ("python", "lua"):
        add("#script (%s)\ncode\n#end." % l)
        add("#script (%s) x=1 #end." % l)
        add("#script (%s)\n\n  a = '%%' --[[ . ]]\n#end." % l)
    for t in THEORY:
        add(t)
    seen = set()
    return [x for x in out if not (x[0] in seen or seen.add(x[0]))]
