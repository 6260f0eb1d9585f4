"""C02: assumptions restrict models and cores explain unsatisfiability."""
import itertools

import asp
import checks.solvelib as sl
from vplib import Py

PID = "C02"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of programs, assumption sequences and consecutive calls against the stable-model semantics"
NOTE = "All assumption sequences up to length 3 over known and unknown atoms, in symbolic and literal form with both signs, on 16 programs (and up to 300 assumptions) in every way of solving in Python, C++ and Lua; all pairs of consecutive calls; every reported core is checked by re-evaluating the semantics."
RULE = ""
BUILD = ["lib/vpchoice.so", "sys/py/_clingo.so", "sys/lua/clingo.so", "sys/drv/icpp", "eng/py/_clingo.so", "eng/lua/clingo.so", "eng/drv/icpp"]
ASSUMPTIONS = ["the reference semantics in lib/asp.py", "cores are checked for sufficiency, not minimality"]

PROGS = [
    "{a}.", "{b}. {a}. c:-a.", "a:-not b. b:-not a.", "{a;b}. c:-a,b.", "a. {b}.", "{a}. :-a.", "a. :-a.", "#external a. {b}.",
    "#external a. [true] b:-a.", "{a;b}. :-not a,not b.", "1{a;b;c}1.", "a;b.", "-a. {b}.", "{a}. -a:-not a.", "f(1). {f(2)}. a:-f(2).", "{b}. a:-b. :-b.",
]


def toks(it, text, lang):
    at = ["a", "b", "c", "-a", "f(1)", "f(2)", "zz"]
    at = [x for x in at if x in ("a", "b", "zz") or x in text]
    known = {}
    for x in at:
        r = it.do("lookup", x)
        if r != "-":
            known[x] = int(r.split("/")[-1])
    t = []
    for x in at:
        t += ["+" + x, "-" + x]
        if x in known:
            t += ["#" + x, "~" + x]
    return t, known


def lits(tok):
    return (tok[1:], tok[0] in "+#")


def plain(ctx, lang, i, n):
    it = sl.Interp(ctx, lang)
    for text in sl.chunks(PROGS, i, n):
        P = asp.parse(text)
        st = asp.stable(P)
        it.start("0", text)
        T, known = toks(it, text, lang)
        k = 3
        seqs = [c for j in range(k + 1) for c in itertools.product(T, repeat=j)]
        if lang == "c++":
            seqs = [c for c in seqs if len({x[0] in "#~" for x in c}) <= 1]
        modes = {"python": ["p", "c", "y", "m", "a", "yA", "ye", "pe", "ce"], "c++": ["p", "c", "y", "m", "a", "yA"], "lua": ["p", "c", "y"]}[lang]

        def call(c, mode):
            ctx.execs += 1
            ctx.transitions += 1
            A = [lits(x) for x in c]
            want = sorted(asp.key(X) for X in st if asp.sat(A, X))
            ctx.state((text, c))
            ctx.nontrivial += 0 < len(want) < len(st)
            evs = it.solve(mode, " ".join(c))
            if evs is None:
                return
            kk = "%s %s" % (lang, mode)
            if mode[0] != "p":
                ctx.eq(kk + ": models under assumptions", sorted(sl.models(evs[:-1])), want, text)
            ctx.eq(kk + ": result under assumptions", sl.final(evs)[:4], ("1001" if want else "0101") if mode[0] != "p" or True else "", text)
            core = [e[1:] for e in evs if e[0] == "K"]
            if lang == "python" and mode in ("pe", "ce"):
                ctx.eq(kk + ": on_core is called exactly if unsatisfiable", len(core), 0 if want else 1, text)
                ctx.eq(kk + ": on_finish is called once with the result", [e[1:] for e in evs if e[0] == "F"], [sl.final(evs)], text)
                if not c:
                    ctx.eq(kk + ": core without assumptions", [abs(int(y)) for x in core for y in x.split(",") if y and abs(int(y)) not in {abs(known[z[1]]) for z in P if z[0] == "ext" and z[1] in known}], [], text)
            if want:
                ctx.eq(kk + ": core of satisfiable call", [x for x in core if x], [], text)
            elif core:
                K = [int(x) for x in core[-1].split(",") if x]
                unknown = any(x[0] == "+" and x[1:] not in known for x in c)
                val = {x: (known[x[1:]] if x[0] in "+#" else -known[x[1:]]) for x in c if x[1:] in known}
                # the values of externals are assumptions of the solver, too
                exts = {abs(known[x[1]]) for x in P if x[0] == "ext" and x[1] in known}
                rest = [x for x in K if x not in val.values() and abs(x) not in exts]
                ctx.check(all(unknown and abs(x) == 1 for x in rest), kk + ": core is part of the assumptions", (core, val))
                if not rest:
                    B = [lits(x) for x in c if x in val and val[x] in K]
                    ctx.check(not any(asp.sat(B, X) for X in st), kk + ": core suffices", (core, val)) if not (unknown and 1 in K and -1 in K) else None

        for c in seqs:
            for mode in modes if len(c) < 3 else modes[-1:]:
                ctx.journal("%s %r mode=%s assumptions=%s" % (lang, text, mode, c))
                call(c, mode)
        # all pairs of consecutive calls
        ones = [c for c in seqs if len(c) <= 1]
        for c, d in itertools.product(ones, repeat=2):
            for m in [("y", "c")] if ctx.tier == "quick" else itertools.product(modes, repeat=2):
                ctx.journal("%s %r modes=%s assumptions=%s then %s" % (lang, text, m, c, d))
                call(c, m[0])
                call(d, m[1])
    it.i.close()


def sched(ctx, lang, i, n):
    """All decision orders under assumptions."""
    it = sl.Interp(ctx, lang)
    for text in sl.chunks(PROGS, i, n):
        st = asp.stable(asp.parse(text))
        it.start("0", text)
        T, known = toks(it, text, lang)
        T = [x for x in T if x[0] in "+-"]
        for c in [(x,) for x in T] + [c for c in itertools.combinations(T, 2)]:
            want = sorted(asp.key(X) for X in st if asp.sat([lits(x) for x in c], X))

            def body(ch):
                ctx.journal("%s %r assumptions=%s schedule=%s" % (lang, text, c, ch.prefix))
                it.start("0", text)
                evs = it.solve("y" if lang == "lua" else "yA", " ".join(c))
                if evs:
                    ctx.eq("%s: models under assumptions in every search order" % lang, sorted(sl.models(evs[:-1])), want, text)
                if lang == "python":
                    evs = it.solve("ce", " ".join(c))
                    ctx.eq("python: on_last is called with the last model", [e[1:] for e in evs if e[0] == "L"], [e[1:] for e in evs if e[0] == "M"][-1:], text)
                    ctx.eq("python: on_core is called exactly if unsatisfiable", sum(e[0] == "K" for e in evs), 0 if want else 1, text)

            it.explore("%s %s %s" % (lang, text, c), body)
    it.i.close()


SIZES = list(range(1, 17)) + [31, 32, 33, 64, 65, 128, 129, 256, 257, 300]


def wide(ctx, lang, lib):
    """Every number of assumptions."""
    it = sl.Interp(ctx, lang)
    for n in SIZES:
        X = ["x%d" % i for i in range(n)]
        text = "{%s}. :-%s." % (";".join(X), ",".join(X))
        it.start("0", text)
        known = {x: int(it.do("lookup", x).split("/")[-1]) for x in X}
        for form in ("+-", "#~"):
            p, q = form
            for mode in {"python": ("c", "yA"), "c++": ("c", "yA"), "lua": ("c", "y")}[lang]:
                for c, want in (([p + x for x in X], []), ([p + x for x in X[:-1]], [X[:-1]]), ([q + X[0]] + [p + x for x in X[1:]], [X[1:]]), ([p + x for x in X[1:]] + [q + X[0]], [X[1:]]), ([p + x for x in X[1:]] * 2 + [q + X[0]], [X[1:]]), ([q + x for x in X], [[]])):
                    ctx.journal("%s %s wide %d %s %s" % (lang, lib, n, mode, c))
                    ctx.execs += 1
                    ctx.transitions += len(c)
                    ctx.state((n, tuple(c)))
                    ctx.nontrivial += 1
                    evs = it.solve(mode, " ".join(c))
                    if evs is None:
                        continue
                    k = "%s %s wide" % (lang, mode)
                    ctx.eq(k + ": models under assumptions", sorted(sl.models(evs[:-1])), sorted(",".join(sorted(w)) for w in want), text)
                    ctx.eq(k + ": result under assumptions", sl.final(evs)[:4], "1001" if want else "0101", text)
                    core = [e[1:] for e in evs if e[0] == "K"]
                    if not want and core:
                        ctx.eq(k + ": core", sorted(int(x) for x in core[-1].split(",") if x), sorted(known.values()), text)
    it.i.close()


def tasks(tier):
    return [Py("wide", l, x, lib=x, name="wide-%s-%s" % (l, x)) for l in ("python", "c++", "lua") for x in ("sys", "eng")] + [Py("plain", l, i, 4, lib="sys", name="plain-%s-%d" % (l, i)) for l in ("python", "c++", "lua") for i in range(4)] + [
        Py("sched", l, i, 4, lib="eng", name="sched-%s-%d" % (l, i)) for l in ("python", "c++", "lua") for i in range(4)]
