"""A02: syntax-tree nodes are values with shared or deep copies as asked."""
import copy
import itertools

from checks import astlib
from checks.astlib import SIG, CHILD, N, Ref, PyAst, CppAst, parse_dump, types
from checks.A01 import SIZES, wides
from vplib import Py

PID = "A02"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of nodes and of histories of set, copy, sequence and comparison operations, replayed on a reference object graph"
NOTE = "Every one of the 45/46 node types with every value of every attribute's alphabet (thorough: every pair of attributes); all pairs of nodes of a type and across types for the six comparisons (ordered by type, then attribute by attribute) and hashing; all histories up to length 3 (thorough 4) of set, copy, deep copy and child access on five node shapes; copies of nodes with up to 300 or 129 nested parts changed at every depth, in Python and C++, against plain objects with identity."
RULE = ""
BUILD = ["sys/py/_clingo.so", "eng/py/_clingo.so", "sys/drv/cppast", "eng/drv/cppast"]
ASSUMPTIONS = ["nodes are built with children of arbitrary type; the library accepts them and only checks types when printing or building programs"]

ALPHA = {
    "s": ["szz", "s", "sa b", "s\u00fc\"\\"],
    "i": ["i0", "i1", "i-1", "i2147483647", "i-2147483648"],
    "y": ["y0", 'y"s"', "yf(1,-a)", "y#inf"],
    "L": ["L0", "L1", "L2"],
    "n": ["r10", "r11", "r12"],
    "o": ["o", "r10", "r12"],
    "N": ["N", "N10", "N10,11", "N11,10", "N10,10", "N12"],
    "S": ["S", "S-", "S-\x02+", "S\u00e4\x02\x02x"],
}
SETUP = [("reset",), ("new", "10", "Variable", "L0", "sX"), ("new", "11", "Variable", "L1", "sY"), ("new", "12", "Function", "L0", "sf", "N10", "i0")]
WRONG = {"s": ["i1", "r10"], "i": ["szz", "r10"], "y": ["szz", "i1", "r10"], "L": ["szz", "i1"], "n": ["o", "i1", "szz"], "o": ["i1", "szz"], "N": [], "S": []}


def variants(t, tier):
    sig = SIG[t]
    base = [ALPHA[k][0] for a, k in sig]
    yield tuple(base)
    for i, (a, k) in enumerate(sig):
        for v in ALPHA[k][1:]:
            b = list(base)
            b[i] = v
            yield tuple(b)
    if tier == "thorough":
        for (i, (_, k)), (j, (_, l)) in itertools.combinations(enumerate(sig), 2):
            for v, w in itertools.product(ALPHA[k][1:], ALPHA[l][1:]):
                b = list(base)
                b[i], b[j] = v, w
                yield tuple(b)


def eq(ctx, got, want, key):
    return ctx.eq(key, got, want, "")


def many(x, cmds):
    return x.many(cmds) if isinstance(x, CppAst) else [x.do(*c) for c in cmds]


def nodes(ctx, lang, i, n):
    x = PyAst() if lang == "python" else CppAst()
    lib = "sys" if astlib.OLD else "eng"
    for t in types()[i::n]:
        ref = Ref()
        many(x, SETUP)
        many(ref, SETUP)
        vs = list(variants(t, ctx.tier))
        if len(vs) > 150:
            vs = vs[::len(vs) // 150 + 1]
        ctx.journal("%s %s" % (lang, t))
        cmds = []
        for j, v in enumerate(vs):
            cmds += [("new", 100 + j, t) + v, ("dump", 100 + j), ("copy", 20, 100 + j), ("dump", 20), ("deep", 21, 100 + j), ("dump", 21), ("eq", 20, 100 + j), ("eq", 21, 100 + j)]
        got, want = many(x, cmds), many(ref, cmds)
        for c, g, w in zip(cmds, got, want):
            ctx.execs += 1
            ctx.transitions += 1
            eq(ctx, g, w, "%s: %s of %s" % (lang, c[0], t))
        for j in range(len(vs)):
            ctx.state((t, vs[j]))
        # setting every attribute to every value, then wrong values and names
        cmds = []
        for j, (a, k) in enumerate(SIG[t]):
            for v in ALPHA[k]:
                cmds += [("new", 30, t) + vs[0], ("copy", 31, 30), ("set", 30, a, v), ("dump", 30), ("dump", 31)]
            for v in WRONG[k]:
                cmds += [("new", 30, t) + vs[0], ("set", 30, a, v), ("dump", 30)]
        cmds += [("set", 30, "nosuch", "i1"), ("get", 32, 30, "nosuch"), ("dump", 30)]
        for a, k in sorted({(a, k) for s in SIG.values() for a, k in s if a not in dict(map(tuple, SIG[t]))}):
            cmds += [("set", 30, a, ALPHA[k][0]), ("get", 32, 30, a)]
        cmds += [("dump", 30)]
        sig = dict(map(tuple, SIG[t]))
        got = many(x, cmds)
        for c, g in zip(cmds, got):
            ctx.execs += 1
            ctx.transitions += 1
            if c[0] == "set" and (c[2] not in sig or c[3] in WRONG[sig[c[2]]]):
                w = "E"
            elif c[0] == "get":
                w = "E"
            else:
                w = ref.do(*c)
            eq(ctx, g, w, "%s: %s of %s" % (lang, c[0], t))
        # comparisons
        m = len(vs)
        idx = range(m) if m <= 40 else range(0, m, m // 40 + 1)
        pairs = [(p, r) for p in idx for r in idx]
        got = dict(zip(pairs, many(x, [("cmp", 100 + p, 100 + r) for p, r in pairs])))
        compare(ctx, lang, got, {p: ref.r[100 + p] for p in idx}, t)
        if lang == "python":
            python(ctx, x, t, vs, ref)


def compare(ctx, lang, got, nodes, what):
    content = {p: n.dump(False) for p, n in nodes.items()}
    keys = {p: n.key() for p, n in nodes.items()}
    for (p, r), g in got.items():
        ctx.execs += 1
        same = content[p] == content[r]
        k = "%s: comparison of %s" % (lang, what)
        if len(g) != 7:
            ctx.fail(k, g)
            continue
        eq, ne, lt, le, gt, ge, h = [c == "1" for c in g]
        ctx.check(eq == same and ne != same, k, "== and != of %s and %s: %s" % (content[p], content[r], g))
        ctx.check(h or not same, k, "hash of equal nodes differs: %s" % content[p])
        ctx.check(lt + gt + same == 1 and le == (lt or same) and ge == (gt or same), k, "order of %s and %s: %s" % (content[p], content[r], g))
        o = got[r, p]
        ctx.check(o[2] == g[4] and o[4] == g[2], k, "not antisymmetric: %s and %s" % (content[p], content[r]))
        ctx.check(lt == (keys[p] < keys[r]), "%s: order of %s" % (lang, what), "%s and %s: %s" % (content[p], content[r], g))


def python(ctx, x, t, vs, ref):
    """Interface parts only Python has: repr, keys, items, values, child_keys, update."""
    import clingo
    import clingo.ast as A

    env = {"ast": A, "Location": A.Location, "Position": A.Position, "Function": clingo.Function, "Number": clingo.Number, "String": clingo.String, "Infimum": clingo.Infimum, "Supremum": clingo.Supremum}
    names = [a for a, k in SIG[t]]
    for j, v in enumerate(vs):
        n = x.r[100 + j]
        ctx.execs += 1
        ctx.transitions += 5
        eq(ctx, str(n.ast_type), "ASTType." + t, "python: ast_type")
        eq(ctx, n.keys(), names, "python: keys of " + t)
        eq(ctx, n.child_keys, [a for a, k in SIG[t] if k in "noN"], "python: child_keys of " + t)
        sh = lambda w: list(w) if isinstance(w, (A.ASTSequence, A.StrSequence)) else w
        eq(ctx, [k for k, _ in n.items()], names, "python: items of " + t)
        ctx.check([sh(w) for _, w in n.items()] == [sh(getattr(n, k)) for k in names], "python: items of " + t, repr(n.items()))
        ctx.check([sh(w) for w in n.values()] == [sh(getattr(n, k)) for k in names], "python: values of " + t, repr(n.values()))
        try:
            m = eval(repr(n), dict(env))
        except Exception as e:
            ctx.fail("python: repr of " + t, "%s: %r" % (repr(n), e))
        else:
            ctx.check(m == n, "python: repr of " + t, "%s is not equal" % repr(n))
            eq(ctx, x.dump(m), x.dump(n), "python: repr of " + t)
        ctx.check(n.update() is n, "python: update() of " + t, "another object")
        for other in (object(), None, 1, "x", [n]):
            ctx.check(not n == other and n != other, "python: comparison with another type", repr(other))
            try:
                n < other
                ctx.fail("python: order with another type", repr(other))
            except TypeError:
                pass
    many(x, [("new", 99, t) + tuple(ALPHA[k][1] for _, k in SIG[t])])
    many(ref, [("new", 99, t) + tuple(ALPHA[k][1] for _, k in SIG[t])])
    wrong_members(ctx, x, t, names)
    for base in (100, 99):
        updates(ctx, x, t, x.r[base], ref.r[base], ref)


def wrong_members(ctx, x, t, names):
    """Sequences with a member of the wrong type anywhere, and iterators that fail, are rejected as a whole."""
    for a, k in SIG[t]:
        if k not in "NS":
            continue
        n = x.r[99]
        before = x.dump(n)
        good = list(getattr(x.r[99], a)) or [x.val(ALPHA["s"][1]) if k == "S" else x.r[10]]
        wrong = [1, None, b"x", [good[0]]] + ([x.r[10]] if k == "S" else ["x"])

        def fail(pre):
            yield from pre
            raise ZeroDivisionError

        for m in range(3):
            for pos in range(m + 1):
                for w in wrong:
                    v = (good * 3)[:m]
                    v.insert(pos, w)
                    for mk in (lambda v: v, tuple, iter, lambda v: fail(v[:pos])):
                        ctx.execs += 1
                        ctx.state((t, a, m, pos, repr(w)))
                        try:
                            setattr(n, a, mk(v))
                            ctx.fail("python: a wrong member is accepted for %s of %s" % (a, t), repr(v))
                        except Exception:
                            pass
                        if not eq(ctx, x.dump(n), before, "python: a rejected assignment changes %s of %s" % (a, t)):
                            return


def updates(ctx, x, t, n, rn, ref):
    for (a, k), (b, l) in list(itertools.combinations(SIG[t], 2)) + [(s, s) for s in SIG[t]]:
        for v, w in itertools.product(ALPHA[k], ALPHA[l]) if a != b else [(v, v) for v in ALPHA[k]]:
            kw = {a: x.val(v), b: x.val(w)}
            m = rn.copy()
            m.a.update({a: astlib.values(v, ref.r), b: astlib.values(w, ref.r)})
            got = n.update(**kw)
            ctx.execs += 1
            ctx.transitions += 1
            if not eq(ctx, x.dump(got), m.dump(), "python: update of " + t) or not eq(ctx, x.dump(n), rn.dump(), "python: update of %s changes the node itself" % t):
                return


def orders(ctx):
    """Comparisons of sequences of nodes (Python)."""
    import operator

    x, ref = PyAst(), Ref()
    cmds = SETUP + [("new", "13", "Function", "L1", "sf", "N10,11", "i0"), ("new", "14", "Variable", "L2", "sX")]
    many(x, cmds)
    many(ref, cmds)
    S = [s for n in range(4 if ctx.tier == "thorough" else 3) for s in itertools.product((10, 11, 12, 13, 14), repeat=n)]
    seqs = []
    for j, s in enumerate(S):
        x.do("new", str(100 + j), "Pool", "L0", "N" + ",".join(map(str, s)))
        seqs.append(x.r[100 + j].arguments)
    keys = [[ref.r[i].key() for i in s] for s in S]
    OPS = {o: getattr(operator, o) for o in ("eq", "ne", "lt", "le", "gt", "ge")}
    for (i, a), (j, b) in itertools.product(enumerate(seqs), repeat=2):
        ctx.journal("python sequences %s %s" % (S[i], S[j]))
        ctx.execs += 1
        ctx.transitions += len(OPS)
        ctx.state((S[i], S[j]))
        for kind, c in (("sequence", b), ("list", list(b)), ("tuple", tuple(b)), ("slice", x.r[100 + j].arguments[:])):
            for o, f in OPS.items():
                if kind != "sequence" and i != j and (i + j) % 7:
                    continue
                try:
                    g = f(a, c)
                except Exception as e:
                    g = repr(e)
                eq(ctx, g, f(keys[i], keys[j]), "python: %s of a sequence of nodes and a %s" % (o, kind))
        if keys[i] == keys[j]:
            ctx.check(hash(a) == hash(b) and {a: 1}.get(b) == 1, "python: sequences of nodes as keys", "")
    for a in seqs:
        for other in (None, 1, object(), x.r[10]):
            try:
                g = (a == other, a != other, other == a, other in [a], a in [other])
            except Exception as e:
                g = repr(e)
            eq(ctx, g, (False, True, False, False, False), "python: equality of a sequence of nodes with another object")
            for o in ("lt", "le", "gt", "ge"):
                try:
                    ctx.fail("python: order of a sequence of nodes and another object", "%s gives %r" % (o, OPS[o](a, other)))
                except TypeError:
                    pass


def cross(ctx, lang):
    """Comparisons across node types."""
    x = PyAst() if lang == "python" else CppAst()
    ref = Ref()
    many(x, SETUP)
    many(ref, SETUP)
    k = 0
    for t in types():
        v = tuple(ALPHA[k2][0] for a, k2 in SIG[t])
        w = tuple(ALPHA[k2][1] for a, k2 in SIG[t])
        for u in (v, w):
            many(x, [("new", 100 + k, t) + u])
            many(ref, [("new", 100 + k, t) + u])
            k += 1
    pairs = list(itertools.product(range(k), repeat=2))
    got = dict(zip(pairs, many(x, [("cmp", 100 + p, 100 + r) for p, r in pairs])))
    compare(ctx, lang, got, {p: ref.r[100 + p] for p in range(k)}, "nodes of all types")
    # nesting decides too
    reg = 500
    ids = []
    for inner in ("r10", "r11", "r12"):
        for op in ("i0", "i2"):
            for other in ("r10", "r12"):
                for c in [("new", reg, "BinaryOperation", "L0", op, inner, other), ("new", reg + 1, "Function", "L1", "sg", "N%d,%s" % (reg, other[1:]), "i0"), ("new", reg + 2, "Function", "L1", "sg", "N%d" % reg, "i0")]:
                    x.do(*c)
                    ref.do(*c)
                ids += [reg, reg + 1, reg + 2]
                reg += 3
    pairs = list(itertools.product(ids, repeat=2))
    got = dict(zip(pairs, many(x, [("cmp", p, r) for p, r in pairs])))
    compare(ctx, lang, got, {p: ref.r[p] for p in ids}, "nested nodes")


ROOTS = [
    [("new", "0", "Function", "L0", "sf", "N10,11", "i0")],
    [("new", "0", "Rule", "L0", "r12", "N10,12")],
    [("new", "0", "BodyAggregate", "L0", "o", "i0", "N", "r12")],
    [("new", "0", "TheoryUnparsedTermElement", "S-\x02+", "r12")],
    [("new", "0", "Comparison", "r12", "N12")],
]


def ops(root):
    """Operations on registers 0 (root), 1 (copy), 2 (child), plus the shared leaf 10."""
    t = root[-1][2]
    out = [("copy", "1", "0"), ("deep", "1", "0"), ("assign", "1", "0"), ("set", "10", "name", "sQ"), ("set", "12", "name", "sQ")]
    for r in ("0", "1"):
        for a, k in SIG[t]:
            if k in "sin":
                out.append(("set", r, a, {"s": "szz", "i": "i3", "n": "r11"}[k]))
            if k == "o":
                out += [("set", r, a, "o"), ("set", r, a, "r10")]
            if k in "no":
                out.append(("get", "2", r, a))
            if k == "N":
                out += [("set", r, a, "N11"), ("at", "2", r, a, "0"), ("seq", r, a, "app", "r11"), ("seq", r, a, "set", "0", "r11")]
            if k == "S":
                out += [("set", r, a, "S*"), ("seq", r, a, "app", "s/"), ("seq", r, a, "del", "0")]
        seqs = [a for a, k in SIG[t] if k in "NS"]
        for a in seqs:
            out += [("assignseq", r, a, "1" if r == "0" else "0", a)]
            if r == "0":
                out += [("assignseq", r, a, r, a)]
    out += [("set", "2", "name", "sW"), ("copy", "3", "2"), ("deep", "3", "2")]
    out += [("set", "3", "name", "sV")]
    return out


def history(ctx, lang, i):
    x = PyAst() if lang == "python" else CppAst()
    root = ROOTS[i]
    O = ops(root)
    depth = 3 if ctx.tier == "quick" else 4
    if lang == "c++":
        O = [o for o in O if o[0] != "assignseq"]  # C++ assigns element by element
    regs = ("0", "1", "2", "3", "10", "11", "12")
    tail = [("dump", r) for r in regs]

    def valid(h):
        """A register must hold something before it is used."""
        have = {"0", "10", "11", "12"}
        for o in h:
            use = {"copy": (2,), "deep": (2,), "assign": (2,), "set": (1,), "get": (2,), "at": (2,), "seq": (1,), "assignseq": (1, 3)}[o[0]]
            if any(o[u] not in have for u in use):
                return False
            if o[0] in ("copy", "deep", "assign", "get", "at"):
                have.add(o[1])
        return True

    batch = []

    def flush():
        cmds = [c for h in batch for c in SETUP + root + list(h) + tail]
        got = many(x, cmds)
        pos = 0
        for h in batch:
            ref = Ref()
            seq = SETUP + root + list(h) + tail
            ctx.journal("%s %r" % (lang, h))
            for c in seq:
                g = got[pos]
                pos += 1
                w = ref.do(*c)
                ctx.transitions += 1
                if not eq(ctx, g, w, "%s: history on %s" % (lang, root[-1][2])):
                    break
            else:
                ctx.execs += 1
                ctx.state((h,))
                continue
            return False
        batch.clear()
        return True

    for k in range(1, depth + 1):
        for h in itertools.product(O, repeat=k):
            if not valid(h):
                continue
            if k == depth and h[-1][0] in ("assign",):
                continue
            batch.append(h)
            if len(batch) >= 200:
                if not flush():
                    return
    flush()


def paths(n, pick):
    """Paths to the nodes found by always descending into the first, last or middle child."""
    out, path = [], ()
    while True:
        cs = []
        for a, k in CHILD[n.t]:
            v = n.a[a]
            cs += [((a, i), c) for i, c in enumerate(v)] if k == "N" else [((a, None), v)] if v is not None else []
        if not cs:
            return out
        step, n = cs[pick if pick < 1 else len(cs) // 2]
        path += (step,)
        if "location" in n.a:
            out.append(path)


def wide(ctx, lang):
    """Copies of statements with many or deeply nested parts, changed at every depth."""
    x = PyAst() if lang == "python" else CppAst()
    for t, _ in wides((5, 17, 33, 129) if ctx.tier == "quick" else SIZES):
        r = x.do("parse", t)
        if not ctx.check(r not in ("error", "E") and not r.startswith("crash"), "%s: statement is not parsed" % lang, "%r: %s" % (t, r)):
            continue
        d = r.split("\x03")[1].split("\x04")[0]
        ps = list(dict.fromkeys(p for k in (0, -1, 1) for p in paths(parse_dump(d), k)))
        ps = ps if len(ps) < 20 or ctx.tier == "thorough" else ps[:8] + ps[-8:]
        ref = Ref()
        ref.do("load", "60", d)
        cmds = [("assign", "60", "1"), ("deep", "61", "60"), ("copy", "62", "60"), ("eq", "60", "61"), ("eq", "60", "62"), ("dump", "61"), ("dump", "62")]
        wants = [None] + [ref.do(*c) for c in cmds[1:]]
        for p in ps:
            ctx.state((t, p))
            for r0 in ("60", "61", "62"):
                cur, seq = r0, []
                for j, (a, idx) in enumerate(p):
                    seq.append(("get", str(200 + j), cur, a) if idx is None else ("at", str(200 + j), cur, a, str(idx)))
                    cur = str(200 + j)
                seq += [("set", cur, "location", "L2")] + [("dump", z) for z in ("60", "61", "62")] + [("eq", "60", "61"), ("set", cur, "location", "L0")]
                cmds += seq
                wants += [ref.do(*c) for c in seq]
                ctx.execs += 1
        ctx.journal("%s copies of %r" % (lang, t))
        ctx.transitions += len(cmds)
        for c, g, w in zip(cmds, many(x, cmds), wants):
            if w is not None and g != w:
                ctx.fail("%s: %s of a large node" % (lang, c[0]), "%r of %r: got %r, expected %r" % (c, t, g, w))
                break


def tasks(tier):
    out = []
    for lib in ("sys", "eng"):
        out.append(Py("orders", lib=lib, name="orders-" + lib))
        for l in ("python", "c++"):
            out += [Py("nodes", l, i, 3, lib=lib, name="nodes-%s-%s-%d" % (l, lib, i)) for i in range(3)]
            out.append(Py("wide", l, lib=lib, name="wide-%s-%s" % (l, lib)))
            out.append(Py("cross", l, lib=lib, name="cross-%s-%s" % (l, lib)))
            out += [Py("history", l, i, lib=lib, name="history-%s-%s-%d" % (l, lib, i)) for i in range(len(ROOTS))]
    return out
