"""C06: clauses added during model enumeration constrain the remaining search."""
import itertools

import asp
import checks.solvelib as sl
from vplib import Py

PID = "C06"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of programs, clauses and the models they are added at, and of search orders, against the stable-model semantics"
NOTE = "All clauses and nogoods of up to 2 literals (thorough 3) over known and unknown atoms, in symbolic and literal form, added at the first, second or every model, and clauses and nogoods of up to 300 literals, while solving with callbacks or iterators in Python, C++ and Lua; all decision orders on the engine built from the sources."
RULE = ""
BUILD = ["lib/vpchoice.so", "sys/py/_clingo.so", "sys/lua/clingo.so", "sys/drv/icpp", "eng/py/_clingo.so", "eng/drv/icpp"]
ASSUMPTIONS = ["the reference semantics in lib/asp.py"]

PROGS = ["{a}.", "{b}. {a}. c:-a.", "a:-not b. b:-not a.", "{a;b}.", "a. {b}.", "{b}. #external a.", "1{a;b;c}1.", "a;b. {c}.", "-a. {b}. c:-not b.", "f(1). {f(2)}. {a}:-f(2)."]


def toks(it, text):
    at = [x for x in ["a", "b", "c", "-a", "f(1)", "f(2)", "zz"] if x in ("a", "b", "zz") or x in text]
    t = []
    for x in at:
        t += ["+" + x, "-" + x]
        if it.do("lookup", x) != "-":
            t += ["#" + x, "~" + x]
    return t


def lits(tok):
    return (tok[1:], tok[0] in "+#")


def violated(kind, c, X):
    if kind == "clause":
        return not any(asp.sat([lits(x)], X) for x in c)
    return all(asp.sat([lits(x)], X) for x in c)


def judge(ctx, k, text, st, evs, at, kind, c):
    if evs is None:
        return
    ms = sl.models(evs[:-1])
    all_ = {asp.key(X): X for X in st}
    ok = {m for m, X in all_.items() if not violated(kind, c, X)}
    ctx.check(len(set(ms)) == len(ms) and set(ms) <= set(all_), k + ": models", ms)
    pre = set(ms[: max(at, 1)])
    want = pre | ok if len(all_) >= max(at, 1) else set(all_)
    ctx.nontrivial += want != set(all_)
    ctx.check(set(ms) == want, k + ": models after %s" % kind, "got %s, all %s, allowed %s" % (ms, sorted(all_), sorted(ok)))
    r = sl.final(evs)
    ctx.eq(k + ": result with %s" % kind, r[:2] + r[4], "100" if all_ else "010", text)


def plain(ctx, lang, i, n):
    it = sl.Interp(ctx, lang)
    for text in sl.chunks(PROGS, i, n):
        st = asp.stable(asp.parse(text))
        allm = sorted(asp.key(X) for X in st)
        it.start("0", text)
        T = toks(it, text)
        modes = {"python": ["c", "y", "m", "a", "yA"], "c++": ["c", "y", "m", "a", "yA"], "lua": ["c", "y"]}[lang]
        K = 2 if ctx.tier == "quick" else 3
        for j in range(K + 1):
            for c in itertools.product(T, repeat=j) if j < 3 else itertools.combinations(T, j):
                if lang == "c++" and len({x[0] in "#~" for x in c}) > 1:
                    continue
                for kind in ("clause", "nogood"):
                    for at in (0, 1, 2):
                        for mode in modes:
                            ctx.journal("%s %r mode=%s %s %s at model %d" % (lang, text, mode, kind, c, at))
                            ctx.execs += 1
                            ctx.transitions += 1
                            ctx.state((text, kind, c, at))
                            hook = "%d:%s %s" % (at, kind, " ".join(c))
                            judge(ctx, "%s %s" % (lang, mode), text, st, it.solve(mode, "", hook), at, kind, c)
                            if mode == modes[(len(c) + at) % len(modes)]:  # no effect on later searches
                                e = it.solve("y")
                                if e:
                                    ctx.eq("%s: models of a later search" % lang, sorted(sl.models(e[:-1])), allm, text)
    it.i.close()


def sched(ctx, lang, i, n):
    it = sl.Interp(ctx, lang)
    for text in sl.chunks(PROGS, i, n):
        st = asp.stable(asp.parse(text))
        it.start("0", text)
        T = [x for x in toks(it, text) if x[0] in "+-#~"]
        for c in [(x,) for x in T] + [x for x in itertools.combinations(T, 2) if lang == "python" or len({y[0] in "#~" for y in x}) < 2]:
            for kind in ("clause", "nogood"):
                for at in (1, 2):
                    for mode in ("c",) if ctx.tier == "quick" else ("c", "y" if lang == "lua" else "yA"):
                        def body(ch):
                            ctx.journal("%s %r mode=%s %s %s at model %d schedule=%s" % (lang, text, mode, kind, c, at, ch.prefix))
                            it.start("0", text)
                            judge(ctx, "%s %s" % (lang, mode), text, st, it.solve(mode, "", "%d:%s %s" % (at, kind, " ".join(c))), at, kind, c)

                        it.explore("%s %s %s %s %d %s" % (lang, text, kind, c, at, mode), body)
    it.i.close()


SIZES = list(range(1, 17)) + [31, 32, 33, 64, 65, 128, 129, 256, 257, 300]


def wide(ctx, lang, lib):
    """Clauses and nogoods of every size."""
    it = sl.Interp(ctx, lang)
    for n in SIZES:
        X = ["x%d" % i for i in range(n)]
        text = "1{%s}1." % ";".join(X)
        st = [frozenset([x]) for x in X]
        h = n // 2
        for form in ("+-", "#~"):
            p, q = form
            for kind, c in (("clause", [p + x for x in X[:h]]), ("clause", [q + x for x in X[h:]]), ("nogood", [q + x for x in X[:-1]]), ("clause", [p + x for x in X]), ("clause", [p + x for x in X[: h + 1]] * 2)):
                for mode in ("c", "y"):
                    ctx.journal("%s %s wide %d %s %s%d %s" % (lang, lib, n, kind, form, len(c), mode))
                    ctx.execs += 1
                    ctx.transitions += 1
                    ctx.state((n, kind, tuple(c)))
                    it.start("0", text)
                    judge(ctx, "%s %s wide" % (lang, mode), text, st, it.solve(mode, "", "1:%s %s" % (kind, " ".join(c))), 1, kind, c)
    it.i.close()


def tasks(tier):
    return [Py("wide", l, x, lib=x, name="wide-%s-%s" % (l, x)) for l in ("python", "c++", "lua") for x in ("sys", "eng")] + [Py("plain", l, i, 5, lib="sys", name="plain-%s-%d" % (l, i)) for l in ("python", "c++", "lua") for i in range(5)] + [
        Py("sched", l, i, 5, lib="eng", name="sched-%s-%d" % (l, i)) for l in ("python", "c++", "lua") for i in range(5)]
