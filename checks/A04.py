"""A04: transformers rewrite exactly what they are told to rewrite; unpooling."""
import itertools
import re

from checks import astlib
from checks.astlib import SIG, CHILD, N, Ref, PyAst, CppAst, parse_dump, statements
from checks.A01 import wides
from checks.solvelib import Interp, chunks, models, final
from vplib import Py

PID = "A04"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of statements, rewritten types and rewritings, and of pool positions and shapes, replayed on reference trees with identity"
NOTE = "Every statement of the grammar (about 3 500; thorough 17 000), every node type occurring in it rewritten in five ways (quick: a third of the trees that differ in shape) (same object, copy, changed attribute, replacement by another node, children first), with the calls made, the resulting tree, identity of untouched trees, sharing of unchanged children and the unmodified original compared with reference trees; visits with and without descending; statements with many or deeply nested parts; every pool shape in every position and pair of positions of 40 statement forms: resulting statements against a reference unpooling, and answer sets of the unpooled program against those of the original."
RULE = ""
BUILD = ["sys/py/_clingo.so", "eng/py/_clingo.so", "sys/drv/cppast", "eng/drv/cppast", "sys/drv/icpp", "eng/drv/icpp"]
ASSUMPTIONS = ["restricted unpooling (only conditions, everything but conditions) is specified for conditional literals; on other nodes the library treats 'everything but conditions' like full unpooling"]


def leaf(n, path=()):
    """Path to a first leaf with a name."""
    for a, k in CHILD[n.t]:
        v = n.a[a]
        if k == "N":
            for i, c in enumerate(v):
                r = leaf(c, path + ((a, i),))
                if r:
                    return r
        elif v is not None:
            r = leaf(v, path + ((a, None),))
            if r:
                return r
    return path if n.t in ("Variable", "Function") and path else None


def types(n):
    out = {}
    for m in n.walk() if hasattr(n, "walk") else ():
        out[m.t] = 1
    return list(out)


def skeleton(n):
    """Node types of a tree, small terms collapsed."""
    if n.t in ("SymbolicTerm", "Variable"):
        return "t"
    return "%s(%s)" % (n.t, ",".join(a + "=" + ("-" if v is None else "".join(map(skeleton, v)) if isinstance(v, list) else skeleton(v)) for a, k in CHILD[n.t] for v in [n.a[a]]))


HOWS = ["same", "copy", "set", "deepset", "reg 50"]


def transform(ctx, lang, i, n):
    x = PyAst() if lang == "python" else CppAst()
    seen = set()
    for t, want in chunks(statements(1 if ctx.tier == "quick" else 2), i, n):
        r = x.do("parse", t)
        if r in ("error", "E") or r.startswith("crash"):
            ctx.fail("%s: statement is not parsed" % lang, "%r: %s" % (t, r))
            continue
        for k, z in enumerate(r.split("\x03")):
            d = z.split("\x04")[0]
            src = parse_dump(d)
            shape = re.sub(r"location=[^,}]*", "", src.dump(False)) if ctx.tier == "thorough" else skeleton(src)
            if k == 0 and i or shape in seen:
                continue
            seen.add(shape)
            if ctx.tier == "quick" and len(seen) % (3 if lang == "python" else 2):
                continue
            ctx.state(shape)
            tree(ctx, lang, x, t, k, d, src)
            x.do("parse", t)


def wide(ctx, lang):
    """Statements with many or deeply nested parts."""
    x = PyAst() if lang == "python" else CppAst()
    for t, _ in wides((7, 33) if ctx.tier == "quick" else (7, 17, 33, 65, 129, 257)):
        r = x.do("parse", t)
        if not ctx.check(r not in ("error", "E") and not r.startswith("crash"), "%s: statement is not parsed" % lang, "%r: %s" % (t, r)):
            continue
        for k, z in enumerate(r.split("\x03")[:3]):
            if k:
                d = z.split("\x04")[0]
                ctx.state(t)
                tree(ctx, lang, x, t, k, d, parse_dump(d))
                x.do("parse", t)
    forms = ["p(%s).", "p(X):-q(X,(%s)).", "p:-q:r((%s)).", "&t(%s){}:-q.", "#show (%s):q.", ":~q.[(%s)@1,2]", "#external p(%s).[true]", "p:-1{q(%s)}2.", "{q(%s):r}."]
    texts = [f % ";".join(map(str, range(n))) for n in (4, 5, 8, 9, 16, 17, 33, 65, 129) for f in forms]
    texts += ["p(%s)." % ",".join(["(1;2)"] * n) for n in range(3, 8)] + ["p(%s)." % ",".join(["(%s)" % ";".join(map(str, range(n)))] * 2) for n in (4, 9, 15)] + ["p:-%s." % ",".join(["q(1;2)"] * n) for n in range(3, 8)]
    unpooled(ctx, lang, texts)


def tree(ctx, lang, x, t, k, d, src):
    ctx.journal("%s transform %r" % (lang, t))
    ref = Ref()
    reg = "77"
    setup = [("assign", reg, str(k)), ("new", "50", "Variable", "L0", "sNEW")]
    ref.do("load", reg, d)
    ref.do(*setup[1])
    cmds = list(setup)
    wants = [None, None]
    ts = types(src)
    other = next(y for y in ("Variable", "Pool", "TheoryGuard", "Interval", "Defined", "Rule") if y not in ts)
    path = leaf(src)
    for T in ts + [other]:
        for how in HOWS:
            if how == "reg 50" and T == src.t:
                continue
            seq = [("trans", "88", reg, T, how), ("dump", "88"), ("dump", reg)]
            if path:
                # an untouched child is shared by source and result, a rewritten one is not
                cur = "88"
                for j, (a, idx) in enumerate(path):
                    nxt = str(200 + j)
                    seq.append(("get", nxt, cur, a) if idx is None else ("at", nxt, cur, a, str(idx)))
                    cur = nxt
                    if how == "reg 50":
                        break
                if how != "reg 50":
                    seq += [("set", cur, "location", "L2"), ("dump", reg), ("dump", "88"), ("set", cur, "location", "L0")]
            for c in seq:
                cmds.append(c)
                wants.append(ref.do(*c))
    seq = [("visit", reg)] + [("visit", reg, T) for T in ts]
    for c in seq:
        cmds.append(c)
        wants.append(ref.do(*c))
    got = x.many(cmds) if lang != "python" else [x.do(*c) for c in cmds]
    ctx.transitions += len(cmds)
    ctx.execs += len(ts) * len(HOWS) + len(seq)
    for c, g, w in zip(cmds, got, wants):
        if w is not None and g != w:
            ctx.fail("%s: %s" % (lang, " ".join(c[:1] + c[3:])[:60]), "%r on %r: got %r, expected %r" % (c, t, g, w))
            return


# ---------------------------------------------------------------- unpooling

ANY = ["UnaryOperation", "Comparison", "Interval", "BinaryOperation", "Function", "SymbolicAtom", "Guard", "Literal", "BodyAggregateElement", "HeadAggregateElement", "TheoryAtomElement"]
CHAIN = {"BodyAggregate": "elements", "HeadAggregate": "elements", "Aggregate": "elements", "TheoryAtom": "elements"}
STM = ["Rule", "ShowTerm", "Minimize", "External", "Edge", "Heuristic", "ProjectAtom"]


def cross(n, attrs, f):
    """All ways of replacing the children in attrs by their alternatives."""
    opts = []
    for a in attrs:
        v = n.a[a]
        if v is None:
            opts.append([None])
        elif isinstance(v, list):
            opts.append([list(p) for p in itertools.product(*[f(c) for c in v])])
        else:
            opts.append(f(v))
    out = []
    for p in itertools.product(*opts):
        m = n.copy()
        m.a.update(zip(attrs, p))
        out.append(m)
    return out


def alts(n, other=True, condition=True):
    """Reference unpooling."""
    t = n.t
    full = lambda c: alts(c)
    lits = lambda c: alts(c, True, False) if c.t == "ConditionalLiteral" else alts(c)
    conds = lambda v: [d for c in v for d in (alts(c, False, True) if c.t == "ConditionalLiteral" else [c])]
    if t == "ConditionalLiteral":
        return cross(n, ["literal"] * other + ["condition"] * condition, full)
    if not other:
        return [n]
    if t == "Pool":
        return [d for c in n.a["arguments"] for d in alts(c)]
    if t == "TheoryAtomElement":
        return cross(n, ["condition"], full)
    if t in ANY:
        return cross(n, [a for a, _ in CHILD[t]], full)
    if t in CHAIN:
        m = n.copy()
        m.a["elements"] = [d for c in n.a["elements"] for d in alts(c)]
        return cross(m, ["term"] if t == "TheoryAtom" else ["left_guard", "right_guard"], full)
    if t == "Disjunction":
        m = n.copy()
        m.a["elements"] = conds(n.a["elements"])
        return cross(m, ["elements"], lits)
    if t in STM:
        m = n.copy()
        m.a["body"] = conds(n.a["body"])
        return cross(m, [a for a, _ in CHILD[t]], lits)
    return [n]


FORMS = [
    "p(P).", "p(P,P):-q(P).", "{p(P);q(P)}.", "{p(P):q(P)}.", "P{p(P):q(P),not r(P)}P.", "p(P):q(P);p(P).", "r(1):-q(P):q(P),p(P).", ":-q(P),not p(P).", "r(1):-not q(P).", "r(1):-not not q(P),q(1).",
    "r(1):-P{q(P):p(P);r(P)}P.", "r(1):-not P{q(P)}.", "r(1):-P<=#sum{P,a:q(P),p(P);1:q(1)}.", "r(1):-#count{P:q(P)}>P.", "r(1):-P<#max{P:q(P);P,1:p(P)}<=P.", "r(1):-not #min{P:q(P)}=P.", "#sum{P:p(P):q(P);1:r(P)}<=P.", "P=#count{P,P:p(P):q(P)}.",
    ":~q(P).[P@P,P,P]", "#minimize{P@P,P:q(P),p(P)}.", "#maximize{P:q(P)}.", "#show P:q(P).", "#show f(P):q(P),not p(P).", "#external e(P):q(1).", "#external e(P).[true]", "#edge(P,P):q(P).", "#heuristic q(P):p(P).[P@P,true]", "#project q(P):p(P).", "#project q(P).",
    "&t(P){1:q(P)}=2.", "r(1):-&t{1:q(P),p(P);2}.", "r(1):-P<P.", "r(1):-q(X),X=P.", "r(1):-P<=P<3.", "P<2.", "P!=P:-q(1).", "p(-P).", "p(|P|).", "p(P+P).", "p(P..P).", "-p(P):--p(P).", "p(f(P,P)):-q(P).", "p((P,1)).", "not p(P):-q(P).", "p(P);q(P):-r(P):q(P).", "r(1):-q(P):.", "r(X):-q(X);X<P:q(P).", "r(1):-not q(P):p(P);q(1).",
]
SHAPES = ["(1;2)", "f(1;2)", "(1;2;1)", "((1;2);3)", "(1,a;2)", "f((1;2),(3;4))", "f(;1)", "(X;1)", "f(1;2,3)"]
SIMPLE = ["(1;2)", "f(1;2)"]
PRE = "{q(1..2);q(f(1))}. {p(1);p(f(2))}. {r(2)}. #theory th{x{};&t/0:x,{=},x,any;&t/1:x,{=},x,any}. "
PLAIN = "1"


def pools(tier):
    out = []
    for f in FORMS:
        n = f.count("P")
        parts = f.split("P")
        fill = lambda d: "".join(a + (d.get(k, PLAIN) if k < n else "") for k, a in enumerate(parts))
        for k in range(n):
            for s in SHAPES:
                out.append(fill({k: s}))
        for k, l in itertools.combinations(range(n), 2):
            for s in itertools.product(SIMPLE if tier == "quick" else SHAPES[:6], repeat=2):
                out.append(fill({k: s[0], l: s[1]}))
        if tier == "thorough":
            for c in itertools.combinations(range(n), 3):
                out.append(fill({k: "(1;2)" for k in c}))
    return list(dict.fromkeys(out))


def nopool(n):
    return all(m.t != "Pool" for m in n.walk())


def canon(dumps):
    """Multiset of trees up to the order of elements, which is not specified."""
    def go(n):
        for a, k in CHILD[n.t]:
            if a in ("elements", "body") and n.a[a]:
                n.a[a].sort(key=lambda c: c.dump())
        for c in n.children():
            go(c)
        return n.dump()

    return sorted(go(parse_dump(d)) for d in dumps)


def unpool(ctx, lang, i, n):
    unpooled(ctx, lang, chunks(pools(ctx.tier) + [s for s, _ in statements(1)][:: 1 if ctx.tier == "thorough" else 3], i, n))


def unpooled(ctx, lang, texts):
    x = PyAst() if lang == "python" else CppAst()
    for t in texts:
        ctx.journal("%s unpool %r" % (lang, t))
        r = x.do("parse", t)
        if r in ("error", "E") or r.startswith("crash"):
            ctx.fail("%s: statement is not parsed" % lang, "%r: %s" % (t, r))
            continue
        ctx.state(t)
        for k, z in enumerate(r.split("\x03")):
            d = z.split("\x04")[0]
            src = parse_dump(d)
            ref = alts(src)
            ctx.check(src.t in ("TheoryDefinition", "Script", "Definition") or all(map(nopool, ref)) or "TheoryFunction" in d, "reference unpooling leaves a pool", t)
            x.do("assign", "60", str(k))
            for how in ("11", "01", "10") if src.t in STM else ("11",):
                if how == "10":
                    continue  # everything but conditions: see ASSUMPTIONS
                g = x.do("unpool", "60", how)
                ctx.execs += 1
                ctx.transitions += 1
                got = [y.split("\x04")[0] for y in g.split("\x03")] if g else []
                want = [m.dump() for m in (ref if how == "11" else [src])]
                ctx.eq("%s: unpooled statement" % lang, canon(got), canon(want), "%r with flags %s" % (t, how))
            ctx.eq("%s: source of unpooling" % lang, x.do("dump", "60"), d, t)
            # conditional literals on their own
            for path, c in inner(src):
                cur = "60"
                for j, (a, idx) in enumerate(path):
                    nxt = str(300 + j)
                    x.do(*(("get", nxt, cur, a) if idx is None else ("at", nxt, cur, a, str(idx))))
                    cur = nxt
                for how in ("11", "01", "10", "00"):
                    g = x.do("unpool", cur, how)
                    ctx.execs += 1
                    got = [y.split("\x04")[0] for y in g.split("\x03")] if g else []
                    want = [m.dump() for m in (alts(c, how[0] == "1", how[1] == "1") if how != "00" else [c])]
                    ctx.eq("%s: unpooled conditional literal" % lang, sorted(got), sorted(want), "%r in %r with flags %s" % (c.dump(False)[:80], t, how))


def inner(n, path=()):
    for a, k in CHILD[n.t]:
        v = n.a[a]
        for i, c in enumerate(v) if k == "N" else [(None, v)] if v is not None else []:
            if c.t == "ConditionalLiteral":
                yield path + ((a, i),), c
            else:
                yield from inner(c, path + ((a, i),))


def answers(it, mode, t):
    it.do("reset")
    it.do("new", "0 --opt-mode=enum")
    it.do("obs", "0")
    it.ok("add", "base", "", PRE)
    r = [it.do("add", "base", "", t) if mode == "text" else it.do("addast", mode, t), it.do("ground", "base")]
    if any(y.startswith("E:") for y in r):
        return "error"
    obs = it.do("obslog").split("\x01")
    side = sorted({o for o in obs if o.startswith(("theory_term", "theory_element"))})
    side += sorted({re.sub(r" -?\d+ \[|\[.*|atom_with_guard \d+|theory_atom \d+", "", o) for o in obs if o.startswith(("acyc_edge", "theory_atom"))})
    side += sorted({re.sub(r"\[.*", "", o) for o in obs if o.startswith(("heuristic", "external", "project"))})
    evs = it.solve("y", "", "")
    if evs is None:
        return None
    return sorted("|".join(e[1:].split("|")[:1] + [z for z in e[1:].split("|")[3:4]]) for e in evs if e[0] == "M"), final(evs), side


def semantics(ctx, lang, i, n):
    it = Interp(ctx, lang)
    for t in chunks(pools(ctx.tier), i, n):
        ctx.journal("%s answer sets of unpooled %r" % (lang, t))
        want = answers(it, "text", t)
        got = answers(it, "unpool", t)
        ctx.execs += 2
        ctx.nontrivial += want != "error"
        ctx.eq("%s: answer sets of the unpooled program" % lang, got, want, t)


def tasks(tier):
    out = []
    for lib in ("eng", "sys"):
        for l in ("python", "c++"):
            k = 3 if lib == "eng" or tier == "thorough" else 2
            out += [Py("transform", l, i, k, lib=lib, name="transform-%s-%s-%d" % (l, lib, i)) for i in range(k)]
            out.append(Py("wide", l, lib=lib, name="wide-%s-%s" % (l, lib)))
            out.append(Py("unpool", l, 0, 1, lib=lib, name="unpool-%s-%s" % (l, lib)))
            out += [Py("semantics", l, i, 2, lib=lib, name="semantics-%s-%s-%d" % (l, lib, i)) for i in range(2)]
    return out
