"""G01: grounding preserves the meaning of the program."""
import itertools
import re
import resource

import gref
from checks.solvelib import chunks
from vplib import Py

PID = "G01"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small non-ground programs, of the orders of their rules and of their divisions into parts, grounded and solved by the real grounder and compared with naive instantiation"
NOTE = "All pairs of 87 non-ground rules over facts and all triples of a core of 32 (thorough: of all), all of 32 conditions in 23 places and 21 literals in 29, with negation, recursion, arithmetic, intervals, pools, comparisons, conditional literals, all aggregates, disjunctions, choices, classical negation, externals, show and minimize statements; answer sets, shown terms, costs and messages about undefined operations are compared with a naive reference; all orders of rules and all divisions into parts grounded together or one after another where allowed."
RULE = ""
BUILD = ["eng/py/_clingo.so"]
ASSUMPTIONS = ["engine built from the sources of the repository with the solver replaced by miniclasp"]

FACTS = "d(1..3). e(a;b;f(1)). s(1,2;2,3). "
RULES = [
    "p(X):-d(X),not q(X).",
    "q(X):-d(X),not p(X).",
    "{q(X):d(X)}1.",
    "{p(X):d(X),X<3}.",
    "1{p(X);q(X)}1:-d(X),X>2.",
    "p(X+1):-q(X),X<3.",
    "p(X):-q(X+1).",
    "p(X-1):-q(X),X>0.",
    "q(X*2):-p(X),X<3,X>0.",
    "p(X/2):-d(X).",
    "q(X\\2):-d(X).",
    "q(-7/2;-7\\2;7\\-2;2**3;0**0;2**(-1)).",
    "p(X-Y):-s(X,Y).",
    "p(2*X-3):-q(X),X<4,X>0.",
    "q(X):-p(2*X+1).",
    "q(X):-d(-X+3).",
    "p(X):-X=1..2,not q(X).",
    "p((1;3)).",
    "q(|X|):-p(-X).",
    "p(X-3):-d(X).",
    "q(X):-p(X),X<0,X>-3.",
    "q(X&1;X?4;X^3;~X):-d(X).",
    "r(X,Y):-s(X,Y).",
    "r(X,Z):-r(X,Y),s(Y,Z).",
    "r(X,Y):-r(Y,X).",
    "r(X,Y):-p(X),q(Y),X!=Y.",
    ":-p(X),q(X),X!=2.",
    "a:-p(X):d(X).",
    "a:-not p(X):q(X).",
    "b:-p(X):q(X),X<2;not a.",
    "b:-#count{X:p(X)}>1.",
    "b:-#sum{X,Y:r(X,Y);X:q(X)}=3.",
    "b:-not #sum{X:p(X)}2.",
    "b:-1<=#sum+{X:p(X);-X,q:q(X)}<3.",
    "b:-#count{X:p(X),not q(X)}!=1.",
    "b:-{p(X);q(X):d(X)}2,d(X),X=1.",
    "n(N):-N=#count{X:d(X),not p(X)}.",
    "n(N):-N=#sum{X:q(X)},N<5.",
    "m(M):-M=#max{X:p(X)}.",
    "m(M):-M=#min{X:q(X);5}.",
    "m(X):-d(X),X<#max{Y:q(Y)}.",
    "q(X):-#count{Y:q(Y);0}>=X,d(X).",
    "p(X):-#sum{Y:q(Y),Y!=X}>=X,d(X),X<3.",
    "p(X)|q(X):-d(X),X>2.",
    "p(X):d(X),X<3.",
    "a;b:-not c.",
    "c:-not not c.",
    "not a:-p(1).",
    "X<3:-p(X).",
    "-p(X):-q(X),X>1.",
    "a:- -p(X),not p(X).",
    "q(X):-e(X).",
    "q(X+1):-e(X).",
    "p(X/Y):-d(X),Y=X-2.",
    "p(f(X)):-d(X),not q(f(X)).",
    "q(X):-p(f(X)).",
    "p(X):-e(f(X)).",
    "q(X):-X=(1;a),not p(X).",
    'q("s";#sup;#inf;b).',
    "p(X):-e(X),X<b.",
    "p(X):-q(X),1<=X<3.",
    "p(X):-d(X),not X<2.",
    "p(X):-q(X),X>=a.",
    "p(1..N):-n(N).",
    "p((X,Y)):-s(X,Y).",
    "s(X,Y):-p((Y,X)).",
    "b:-r(_,2).",
    "b:-not r(_,2),not p(_).",
    "p(X):-d(X),X=2..5.",
    "p(Y):-d(X),Y=X+1,Y<4.",
    "p(Y):-d(X),X=Y+1.",
    "p(X,Y):-X=1..2,Y=X..2.",
    "q(X):-p(X,Y),not p(Y,X).",
    "#external q(X):d(X).",
    "#external a.",
    "c:-q(X),not b.",
    "#show t(X):p(X),not q(X).",
    "#show p/1.",
    "#show. #show X:q(X).",
    "#minimize{X@1,X:p(X);1@X,q:q(X),d(X)}.",
    "#maximize{X,Y:r(X,Y);2:a}.",
    ":~ q(X),not p(X). [X@2,X]",
    ":~ p(X). [X,X]",
    "b:-#true,not #false,p(1).",
    "{a}. {b}:-a.",
    "#const k=2. p(k). q(X):-X=k..3.",
]
CORE = [0, 1, 2, 3, 5, 7, 13, 14, 18, 22, 23, 24, 26, 27, 28, 30, 31, 32, 36, 37, 38, 40, 41, 42, 43, 44, 46, 49, 55, 61, 67, 73]


def solve(clingo, parts, order=None):
    """Answer sets with costs after grounding the parts; messages."""
    log = []
    c = clingo.Control(["0", "--opt-mode=enum"], lambda k, m: log.append((k.name, m)), 1000)
    for name, text in parts:
        c.add(name, [], text)
    for ps in order or [[name for name, _ in parts]]:
        c.ground([(n, []) for n in dict.fromkeys(ps)])
    out = []
    with c.solve(yield_=True) as h:
        for m in h:
            out.append((frozenset(map(str, m.symbols(shown=True))), tuple(m.cost), tuple(m.priority)))
    return out, log


def normal(ms):
    """Models with their costs by priority."""
    return {(a, tuple((p, x) for p, x in sorted(zip(ps, cost)))) for a, cost, ps in ms}


def program(ctx, clingo, rules, variants):
    text = FACTS + " ".join(rules)
    ctx.journal(text)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    try:
        want, undef = gref.answer(text, 9)
    except (OverflowError, RecursionError):
        ctx.skipped = getattr(ctx, "skipped", 0) + 1
        return
    ctx.execs += 1
    try:
        ms, log = solve(clingo, [("base", text)])
    except RuntimeError as e:
        if "too large" in str(e):
            return
        ctx.fail("error", "%s: %s" % (text, e))
        return
    # the same shown atoms may belong to several answer sets
    ctx.eq("answer sets", costs(normal(ms)), costs(want), "")
    k = "OperationUndefined"
    if not undef:
        ctx.eq("message about an undefined operation", [m for c, m in log if c == k], [], "")
    elif must(rules):
        ctx.check(any(c == k for c, m in log), "no message about an undefined operation", "")
    ctx.check(all(c in (k, "AtomUndefined") for c, m in log), "unexpected message", "%s" % log)
    ctx.transitions += len(ms)
    ctx.nontrivial += len(want) > 1
    ctx.state((text,))
    if variants:
        base = normal(ms)
        pieces = [FACTS] + list(rules)
        for perm in itertools.permutations(range(len(pieces))):
            t = " ".join(pieces[i] for i in perm)
            if perm != tuple(range(len(pieces))):
                ctx.execs += 1
                ctx.eq("answer sets of reordered rules", costs(normal(solve(clingo, [("base", t)])[0])), costs(base), t)
        for div in itertools.product((0, 1), repeat=len(pieces)):
            if len(set(div)) == 1:
                continue
            ps = [("p%d" % k, " ".join(x for x, d in zip(pieces, div) if d == k)) for k in (0, 1)]
            for o in (["p0", "p1"], ["p1", "p0"], ["p0", "p1", "p0"]):
                ctx.execs += 1
                ctx.eq("answer sets of parts", costs(normal(solve(clingo, ps, [o])[0])), costs(base), "%s %s" % (div, o))


def must(rules):
    """Rules over facts alone whose operations are undefined for some instance."""
    return any(r.startswith(("p(X/Y):-d(X),Y=X-2.", "q(X+1):-e(X).")) for r in rules)


def costs(ms):
    """Costs without priorities of zero cost, which simplification may drop."""
    return sorted((sorted(a), [(p, c) for p, c in x if c]) for a, x in ms)


def single(ctx, i, n):
    import clingo

    for r in chunks([(r,) for r in RULES], i, n):
        program(ctx, clingo, r, True)


def pairs(ctx, i, n):
    import clingo

    every = 1 if ctx.tier == "thorough" else 8
    for j, r in enumerate(chunks(list(itertools.combinations(RULES, 2)), i, n)):
        program(ctx, clingo, r, j % every == 0)


def triples(ctx, i, n):
    import clingo

    core = [RULES[k] for k in CORE] if ctx.tier != "thorough" else RULES
    for r in chunks(list(itertools.combinations(core, 3)), i, n):
        program(ctx, clingo, r, False)


def steps(ctx, i, n):
    """Grounding parts one after another when later parts only add rules for new atoms."""
    import clingo

    first = [r for r in RULES if "not" not in r and "#" not in r]
    second = ["z(X):-p(X),not q(X).", "z(N):-N=#count{X:p(X);X,q:q(X)}.", "z:-p(X):d(X).", "{z(X):p(X)}.", ":-p(X),not q(X).", "z(X+Y):-p(X),q(Y),d(X),d(Y).", "z:-not r(_,2).", "#minimize{X@1,X:p(X),d(X)}.", "#show z(X):q(X)."]
    for a, b in chunks(list(itertools.product(itertools.combinations(first, 2), second)), i, n):
        text = FACTS + " ".join(a) + " " + b
        ctx.journal("steps " + text)
        try:
            want, _ = gref.answer(text, 9)
        except OverflowError:
            continue
        try:
            ms, log = solve(clingo, [("p0", FACTS + " ".join(a)), ("p1", b)], [["p0"], ["p1"]])
        except RuntimeError as e:
            if "too large" not in str(e):
                ctx.fail("steps: error", str(e))
            continue
        ctx.eq("answer sets after two steps", costs(normal(ms)), costs(want), "")
        ctx.execs += 1
        ctx.transitions += 2


# one condition in every place that has conditions, one literal in every place that has literals
SCOPE = "d(1..3). s(1,2;2,3). {p(1);p(2);p(3)}. q(2). {r(1,2)}. "
CONDS = [
    "p(X)", "p(X),X=1", "X=1..2,p(X)", "d(X),1<X<3", "d(X),not 1<X<3", "d(Y),X=Y+1", "d(Y),X+1=Y", "X=Y=2", "p(Y),Y=X=Z,d(Z)", "p(Y),X=Y+1=Z,Z<4",
    "p((X;X+1)),d(X)", "p(2*X-1)", "d(X),d(Y),p(X+Y)", "not p(X),d(X)", "not not p(X),d(X)", "d(X),X!=Y,q(Y)", "X=1..3,1<=X<=2<3", "r(X,_)",
    "d(X),not r(X,_)", "d(X),X!=(1;2)", "X=(1;2),p(X)", "#true,p(X)", "#false,p(X)", "s(Y,X),X-Y=1", "(X,Y)=(1,2)", "(X,2)=(Y,Y),d(Y)", "f(X)=f(1..2)",
    "s(X,Y),p(Y)", "d(X),d(Y),Y=X-1", "d(X),Y=X*2,Y<5,p(Y-1)", "d(X),X=1<2=Y", "p(X),q(Y),X<Y",
]  # fmt: skip
PLACES = [
    "z(X):-@.", "z:-#count{X:@}=1.", "z:-not #sum{X:@}>=3.", "z(S):-S=#sum{X:@}.", "z:-1{p(X):@}1.", "z:-p(X):@.", "z:-not p(X):@.", "{z(X):@}.",
    "{z(X):@}=1.", "#sum{X:z(X):@}>=2.", "#count{X,Y:z(X):@,d(Y);0:b}2:-p(1).", "z(X):@.", "z(X):@|b.", "b|z:-@.", "#show z(X):@.", "#minimize{X:@}.",
    ":~@. [X]", "#external z(X):@.", ":-@,not q(X).", "z:-d(W);p(X):@,X!=W.", "{z(W,X):@}1:-q(W).", "#max{X:z(X):@}<3.", "m(M):-M=#min{X:@}.",
]  # fmt: skip
LITERALS = [
    "z(X)", "not z(X)", "not not z(X)", "X<2", "not X<2", "1<X<3", "not 1<X<3", "X=1", "z((X;X+1))", "z(X,1..X)", "#false", "#true", "-z(X)", "not -z(X)",
    "z((X,X+1))", "z(-X)", "z(X/2)", "p(X+1)", "z(f(X))", "not p(X)", "1!=X!=3",
]  # fmt: skip
HEADS = [
    "%:-d(X),p(X).", "%:-d(X),not p(X).", "%:p(X).", "%:d(X),p(X).", "%|b:-p(X).", "%:p(X)|b.", "%|p(X+1):-d(X),p(X).", "%:p(X)|z(5):-not b. {b}.",
    "{%:d(X)}.", "{%}:-p(X).", "%:-X=2.",
]  # fmt: skip
ATOMS = ["{%:p(X)}=1.", "1{%:d(X),p(X);b}1.", "#sum{X: %:d(X);2:b}!=3.", "#external %:d(X).", "z(%):-p(X)."]
BODIES = [
    ":-%,d(X).", "b:-%,d(X),p(X).", "b:-p(X): %,d(X).", "b:- %:d(X).", "b:- %:p(X).", "b:-#count{X: %,d(X)}=1.", "b:-#sum{X: %,p(X)}>3.",
    "b:-{%:d(X)}1.", "#show X: %,p(X).", "#external z(X,X): %,d(X).", ":~%,d(X). [X@1,X]", "#minimize{X: %,p(X)}.",
]  # fmt: skip


def headaggregates(text):
    """Head aggregates as choices with constraints."""
    m = re.fullmatch(r"(#(?:sum|count|max|min))\{(.*)\}([^.:]*)(:-.*)?\.", text)
    if not m:
        return text
    f, els, guard, body = m.groups()
    els = [x.split(":") + ["#true"] for x in re.split(r";(?![^()]*\))", els)]
    body = body or ":-"
    return "{%s}%s. %s,not %s{%s}%s." % (";".join("%s:%s" % (x[1], x[2]) for x in els), body if body != ":-" else "", body if body != ":-" else ":-#true", f, ";".join("%s:%s,%s" % tuple(x[:3]) for x in els), guard)


def places():
    ps = [x.replace("@", c) for x in PLACES for c in CONDS]
    ps += [x.replace("%", l) for x in HEADS + BODIES for l in LITERALS if not (x.startswith("%:") and "%:-" not in x and (";" in l or ".." in l))]  # (pools are not told to be choices there)
    ps += [x.replace("%", l) for x in ATOMS for l in LITERALS if l[:2] in ("z(", "-z") and (l[0] != "-" or "z(%)" not in x)]
    ps += [x.replace("@", c) + " {-n(1..2)}." for x in PLACES if x[0] != "#" or ":z" not in x for c in (" -n(X)", " -n(X),p(X)", "p(X),not -n(X)")]
    # (no values without end)
    return [t for t in ps if not re.match(r"\{?p\(X\+1\)(\}:-|:|\|b:-)p\(X\)[.|]", t)]


def scopes(ctx, i, n):
    import clingo

    for t in chunks(places(), i, n):
        text, ref = SCOPE + t, SCOPE + headaggregates(t)
        ctx.journal("scopes " + text)
        ctx.execs += 1
        try:
            want, _ = gref.answer(ref, 16)
            ms, log = solve(clingo, [("base", text)])
        except OverflowError:
            continue
        except RuntimeError as e:
            ctx.fail("scopes: error", str(e))
            continue
        ctx.transitions += len(ms)
        ctx.nontrivial += len(want) > 1
        ctx.state((t,))
        ctx.eq("answer sets of a condition in its place", costs(normal(ms)), costs(want), "")
        ctx.check(all(c == "AtomUndefined" for c, _ in log), "scopes: unexpected message", "%s" % log)


def tasks(tier):
    k = 5
    out = [Py("pairs", i, k, lib="eng", name="pairs-%d" % i) for i in range(k)]
    k = 5 if tier == "quick" else 24
    out += [Py("triples", i, k, lib="eng", name="triples-%d" % i) for i in range(k)]
    out += [Py("scopes", i, 4, lib="eng", name="scopes-%d" % i) for i in range(4)]
    out += [Py("steps", i, 2, lib="eng", name="steps-%d" % i) for i in range(2)]
    out += [Py("single", i, 2, lib="eng", name="single-%d" % i) for i in range(2)]
    return out
