"""C10: constraints added by propagators hold in exactly the intended scope."""
import itertools

import asp
import checks.solvelib as sl
from checks.C09 import compare, history
from checks.ipy import OLD
from vplib import Py

PID = "C10"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of constraints added in initialization and search under all decision orders, against the stable models that satisfy them and against a propagator on the C interface"
NOTE = "All clauses up to 2 literals and pairs of clauses over atoms, an added literal and constants, all weight constraints over small weights, bounds, types and comparisons, minimize literals, and clauses and nogoods of each type added at propagation or checks, on small programs in Python, C++ and Lua on both libraries, with all decision orders on the engine built from the sources."
RULE = ""
BUILD = ["lib/vpchoice.so", "sys/py/_clingo.so", "sys/lua/clingo.so", "sys/drv/icpp", "sys/drv/capi", "eng/py/_clingo.so", "eng/lua/clingo.so", "eng/drv/icpp", "eng/drv/capi"]
ASSUMPTIONS = ["the reference semantics in lib/asp.py", "clauses added during search are logically valid for the intended models (as the interface demands)"]

PROGS = ["{a;b}.", "{a}. b:-not a.", "a. {b}.", "a;b."]


SPACE = [{x for x, v in zip("abx", bits) if v} for bits in itertools.product((0, 1), repeat=3)]


def value(l, X):
    if l[0] == "-":
        return not value(l[1:], X)
    return l == "T" or l in X


def holds(act, X):
    """A constraint in an interpretation (a set of names)."""
    w = act.split(" ")
    k = w[0]
    ls = [] if len(w) < 2 or w[1] == "." else w[1].split(",")
    if k == "clause":
        return any(value(l, X) for l in ls)
    if k == "nogood":
        return not all(value(l, X) for l in ls)
    if k == "wc":
        s = sum(int(x.split("=")[1]) for x in w[2].split(",") if x != "." and value(x.split("=")[0], X))
        bd = int(w[3])
        t = int(w[4]) if len(w) > 4 else 0
        c = s == bd if len(w) > 5 and w[5] == "1" else s >= bd
        l = value(w[1], X)
        return l == c if t == 0 else (c or not l) if t > 0 else (l or not c)
    return True


def expected(prog, acts):
    """The models (as keys) with one entry for each value of added literals."""
    lits = [a.split(" ")[1] for a in acts if a.startswith("lit ")]
    out = []
    for X in asp.stable(asp.parse(prog)):
        for bits in itertools.product((0, 1), repeat=len(lits)):
            Y = set(X) | {l for l, v in zip(lits, bits) if v}
            if all(holds(a, Y) for a in acts):
                out.append((asp.key(X), Y))
    return out


LITS = ["a", "-a", "b", "-b", "x", "-x", "T", "-T"]


def clauses():
    yield "clause ."
    for n in (1, 2):
        for c in itertools.product(LITS, repeat=n):
            yield "clause " + ",".join(c)


def inits(tier):
    cs = list(clauses())
    for c in cs:
        yield ["lit x", c, "prop"]
    two = ["clause " + ",".join(c) for c in [("a", "b"), ("-a", "x"), ("a", "-x"), ("-b", "-x"), ("x",), ("-a", "-b"), ("a", "b", "x"), ("-x", "b")]]
    for c in itertools.permutations(two, 2):
        yield ["lit x 0", *c]
        if tier != "quick":
            yield ["lit x", c[0], "prop", c[1], "lit y", "clause x,y"]
    ws = ["a=1,b=1", "a=2,b=1,x=1", "a=1,-b=2", "a=-1,b=1", ".", "a=1,a=1", "T=1,a=1", "-T=3,b=2", "a=1,-a=1,b=1"]
    for l in ("x", "-x", "T", "a", "-T"):
        for w in ws:
            for bd in (-1, 0, 1, 2, 3):
                for t, e in itertools.product((0, -1, 1), (0, 1)):
                    if e and t and tier == "quick":
                        continue  # (left to the thorough tier)
                    yield ["lit x", "wc %s %s %d" % (l, w, bd) + (" %d %d" % (t, e) if t or e else "")]


def judge(ctx, k, prog, acts, r, want):
    ctx.transitions += 1
    if r.startswith("E:"):
        ctx.fail(k + ": solve fails", "%s [%s]" % (r[:200], ctx.cur))
        return
    ms = sorted(sl.models(sl.events(r)[:-1]))
    w = sorted(x for x, _ in want)
    ctx.check(ms == w, k + ": models", "got %s, expected %s for %s with %s" % (ms, w, prog, acts))
    ctx.eq(k + ": result", sl.final(sl.events(r))[:2], "10" if w else "01", prog)


def init(ctx, lang, i, n):
    it = sl.Interp(ctx, lang)
    c = sl.Interp(ctx, "c")
    k = "%s %s" % (lang, "sys" if OLD else "eng")
    j = 0
    for p in PROGS:
        for acts in inits(ctx.tier):
            j += 1
            if j % n != i:
                continue
            # (one-sided and equality constraints that are constant also fix the literal)
            dull = any(a.startswith("wc") and len(a.split()) > 4 and len({holds(" ".join(["wc", "T"] + a.split()[2:4] + ["0"] + a.split()[5:6]), X) for X in SPACE}) == 1 for a in acts)
            e = [a for a in acts if a.startswith("wc") and a.endswith("1") and len(a.split()) > 5]
            ctx.journal("%s %r %s" % (k, p, acts))
            ctx.execs += 1
            want = expected(p, acts)
            ctx.nontrivial += len(want) != len(asp.stable(asp.parse(p)))
            two = j % 5 == 0 and "-T" not in str(acts)
            log, res = compare(ctx, it, c, k, "0", history(p, "2" if two else "1"), [(";".join(acts), "", "i")], [None], "i")
            # (a false result stops the script: the program is then inconsistent)
            if dull or e and int(e[0].split()[4]) or OLD and any(a.startswith("wc") and len(a.split()) > 4 for a in acts):
                continue  # (equality is only defined for equivalences; one-sided constraints and equality are not exact in the system library)
            if any(a.startswith("wc") and a.split()[1] in ("T", "-T") and len(a.split()) > 4 and a.split()[4] != "0" for a in acts):
                continue  # (one-sided constraints of a constant)
            for r in res[:1]:
                judge(ctx, k + " init", p, acts, r, want)
            if any("=0|" in x for x in log):
                ctx.check(not want, k + ": false returned for a consistent program", "%s %s" % (p, acts))
    it.i.close()
    c.i.close()


def costs(ctx, lang):
    it = sl.Interp(ctx, lang)
    k = "%s %s" % (lang, "sys" if OLD else "eng")
    els = ["min a 1", "min -a 2", "min b 3 1", "min b -1", "min a 2 -1", "min b 1 0", "min T 4 2", "min a 0 5"]
    for p in ["{a;b}.", "{a;b}. #minimize{1@1:a;2@0:b}.", "{a}. {b}:-a."]:
        prios = {1: ["a=1"], 0: ["b=2"]} if "minimize" in p else {}
        for n in (1, 2, 3):
            for c in itertools.combinations(els, n):
                ctx.journal("%s %r %s" % (k, p, c))
                ctx.execs += 1
                ctx.nontrivial += 1
                pr = {q: list(x) for q, x in prios.items()}
                for a in c:
                    w = a.split(" ")
                    pr.setdefault(int(w[3]) if len(w) > 3 else 0, []).append("%s=%s" % (w[1], w[2]))
                it.do("reset")
                it.ok("new", "0 --opt-mode=enum")
                it.ok("prop", ";".join(c), "", "i")
                it.ok("add", "base", "", p)
                it.ok("ground", "base")
                it.do("level", "f", "")
                evs = it.solve("c")
                if evs is None:
                    continue
                got = {}
                for e in evs[:-1]:
                    f = e[1:].split("|")
                    got[f[0]] = f[3]
                want = {}
                for X in asp.stable(asp.parse(p.split("#")[0])):
                    co = [sum(int(y.split("=")[1]) for y in pr[q] if value(y.split("=")[0], X)) for q in sorted(pr, reverse=True)]
                    want[asp.key(X)] = ",".join(map(str, co))
                ctx.eq(k + ": costs", got, want, "%s with %s" % (p, c))
                it.do("level", "b", "")
    it.i.close()


def valid(tier):
    """Rules for the search whose clauses are valid, with the constraint that they enforce."""
    cls = [("a", "b"), ("-a", "-b"), ("-a", "b"), ("a",), ("-b",), ("T", "a"), ("-a", "a"), (), ("a", "b", "-T")]
    for c in cls:
        for ty in ("", " t", " l", " tl"):
            t = ",".join(c) or "."
            ng = ",".join(l[1:] if l[0] == "-" else "-" + l for l in c) or "."
            # once: a propagator that adds in each check never comes to an end; learnt clauses that are satisfied when added may be dropped
            for ev in ("c1:.", "p1:.") if "l" in ty or not set(c) - {"-T"} else ():
                yield "%s:clause %s%s" % (ev, t, ty), "clause " + t
                yield "%s:nogood %s%s" % (ev, ng, ty), "clause " + t
            # when it is violated
            if c and "T" not in t:
                neg = ng
                yield "c:%s:clause %s%s" % (neg, t, ty), "clause " + t
                yield "c:%s:nogood %s%s" % (neg, ng, ty), "clause " + t
                if tier != "quick":
                    yield "c:%s:clause %s%s;c:.:prop" % (neg, t, ty), "clause " + t


def search(ctx, lang, i, n, orders):
    it = sl.Interp(ctx, lang)
    c = sl.Interp(ctx, "c")
    k = "%s %s%s" % (lang, "sys" if OLD else "eng", " orders" if orders else "")
    j = 0
    for p in PROGS if not orders or ctx.tier != "quick" else PROGS[:2]:
        allm = expected(p, [])
        for rule, con in valid(ctx.tier):
            j += 1
            if j % n != i:
                continue
            # watching the constant makes sure that propagation happens in each search
            ws = "watch a;watch -a;watch b;watch -b"
            for h in ("1", "2") if not orders and "1" not in rule else ("1",):
                want = expected(p, [con])

                def body(ch=None):
                    ctx.journal("%s %r %s %s%s" % (k, p, rule, h, " choices=%s" % ch.prefix if ch else ""))
                    if ch is None:
                        ctx.execs += 1
                    ctx.nontrivial += len(want) != len(allm)
                    flags = "ipc" if rule[0] == "p" else "ic"
                    log, res = compare(ctx, it, c, k, "0", history(p, h), [(ws if rule[0] == "p" else "", rule, flags)], [None], flags, ch)
                    for r in res:
                        if rule[0] == "p" and " " in rule and not any(x[1] == "P" for x in log):
                            continue
                        judge(ctx, k + " search", p, rule, r, want)

                if orders:
                    it.explore("%s %s" % (p, rule), body)
                else:
                    body()
            if orders or rule[:3] != "c1:":
                continue
            # added in the first search only: what remains in the second
            ty = rule.rpartition(" ")[2] if rule.rpartition(" ")[2] in ("t", "l", "tl") else ""
            r1 = rule
            ctx.journal("%s %r %s once" % (k, p, r1))
            ctx.execs += 1
            log, res = compare(ctx, it, c, k, "0", history(p, "2"), [("", r1, "ic")], [None], "ic")
            if len(res) < 2 or not any(x[1] == "r" for x in log):
                continue
            ms = sorted(sl.models(sl.events(res[1])[:-1]))
            w, a = sorted(x for x, _ in expected(p, [con])), sorted(x for x, _ in allm)
            if "t" in ty:
                ctx.eq(k + ": a tagged clause in a later search", ms, a, "%s %s" % (p, r1))
            elif ty == "l":
                ctx.eq(k + ": a static clause in a later search", ms, w, "%s %s" % (p, r1))
            else:
                ctx.check(set(w) <= set(ms) <= set(a), k + ": a clause in a later search", "%s: %s" % (p, ms))
    it.i.close()
    c.i.close()


def frozen(ctx, lang):
    """Literals the propagator asked to keep are excluded from elimination."""
    it = sl.Interp(ctx, lang)
    k = "%s sys" % lang
    alpha = ["lit x", "lit y 0", "lit z 1"] + (["freeze y", "freeze -x", "freeze a"] if lang != "lua" else [])
    for p in ("{a;b}. c:-a.", "{a;b;c}. d:-a,b. :-c,d."):
        base = None
        for n in range(len(alpha) + 1):
            for acts in itertools.permutations(alpha, n):
                if any(l in acts and ("lit " + d not in " ".join(acts[: acts.index(l)])) for l, d in (("freeze y", "y"), ("freeze -x", "x"))):
                    continue
                ctx.journal("%s %r %s" % (k, p, acts))
                ctx.execs += 1
                it.do("reset")
                it.ok("new", "0 --sat-prepro=0")
                it.ok("prop", ";".join(acts), "", "i")
                it.ok("add", "base", "", p)
                it.ok("ground", "base")
                if it.solve("c") is None:
                    continue
                g = it.do("stats", "problem.generator.vars_frozen")
                try:
                    g = round(float(g))
                except ValueError:
                    ctx.fail(k + ": statistics", g + " [%s]" % ctx.cur)
                    continue
                if base is None:
                    base = g
                w = len({a.split(" ")[1].strip("-") for a in acts if a != "lit y 0"} - {"a"})  # (atoms of the program are kept anyway)
                ctx.state((p, acts))
                ctx.nontrivial += w > 0
                ctx.eq(k + ": frozen variables", g - base, w, "%s %s" % (p, acts))
    it.i.close()


def tasks(tier):
    out = []
    for lib in ("sys", "eng"):
        for l, n in (("python", 3), ("c++", 2), ("lua", 2)):
            out += [Py("init", l, i, n, lib=lib, name="init-%s-%s-%d" % (l, lib, i)) for i in range(n)]
            out += [Py("search", l, i, 2, False, lib=lib, name="search-%s-%s-%d" % (l, lib, i)) for i in range(2)]
            out.append(Py("costs", l, lib=lib, name="costs-%s-%s" % (l, lib)))
    for l in ("python", "c++", "lua"):
        out.append(Py("frozen", l, lib="sys", name="frozen-%s" % l))
        out += [Py("search", l, i, 4, True, lib="eng", name="orders-%s-%d" % (l, i)) for i in range(4)]
    return out
