"""C05: a model reports exactly its contents."""
import itertools

import asp
import checks.solvelib as sl
from vplib import Py

PID = "C05"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of programs, their models and all queries on them, against the stable-model semantics"
NOTE = "Every stable model of 10 programs x 8 sets of show statements x 3 minimize statements x 3 enumeration modes, with all 32 filter combinations, membership and truth of every atom of the alphabet, and symbols added to one model, in Python, C++ and Lua; all decision orders on the engine built from the sources."
RULE = ""
BUILD = ["lib/vpchoice.so", "sys/py/_clingo.so", "sys/lua/clingo.so", "sys/drv/icpp", "eng/py/_clingo.so", "eng/lua/clingo.so", "eng/drv/icpp"]
ASSUMPTIONS = ["the reference semantics in lib/asp.py and the meaning of show statements stated in this check"]

BASES = [
    "{a;b}. c:-a.", "a;b. -c:-a.", "p(1). {p(2)}. q(1):-p(2).", '{a}. s("x\\"y"):-a. n(-1):-not a.', "#external e. {a}. b:-e.",
    "a. {b}. :-b.", "{a}. -a:-not a.", "a:-not b. b:-not a. c.", "p(1,2). {r(f(x,-1))}. a:-r(f(x,-1)).", "a. -b. #external e. [true] c:-e. {p(1)}.",
]
# (text, shown signatures or None for all, terms with conditions)
SHOWS = [
    ("", None, []),
    ("#show.", [], []),
    ("#show a/0.", [("a", 0, True)], []),
    ("#show -a/0. #show -c/0. #show p/1.", [("a", 0, False), ("c", 0, False), ("p", 1, True)], []),
    ("#show t:a.", None, [("t", [("a", True)])]),
    ("#show u(1):not a. #show (1,):b.", None, [("u(1)", [("a", False)]), ("(1,)", [("b", True)])]),
    ("#show b/0. #show 7:a,not b. #show \"z\":c.", [("b", 0, True)], [("7", [("a", True), ("b", False)]), ('"z"', [("c", True)])]),
    ("#show c/0. #show t:a. #show t:b.", [("c", 0, True)], [("t", [("a", True)]), ("t", [("b", True)])]),
]
MINS = ["", "#minimize{1@2,a:a;3,b:b}.", "#maximize{2@-1,p:p(2);1@-1,c:c}. #minimize{1@5:not a}."]
PROBES = ["a", "b", "c", "-a", "-c", "p(1)", "p(2)", "q(1)", "e", "t", "u(1)", "zz", "n(-1)", 's("x\\"y")', "r(f(x,-1))", "7"]


def sig(s):
    pos = not s.startswith("-")
    t = s.lstrip("-")
    n, _, a = t.partition("(")
    return (n, len(asp.split(a[:-1], ",")) if a else 0, pos)


def expect(X, dom, show, ext=()):
    """The 32 filter combinations."""
    _, sigs, terms = show
    vis = lambda s: sigs is None or sig(s) in sigs
    tt = {t for t, c in terms if asp.sat(c, X)}
    tf = {t for t, c in terms} - tt
    out = []
    for k in range(32):
        at, te, sh, th, co = [bool(k >> i & 1) for i in range(5)]
        A = [s for s in dom if (s in X) != co]
        r = set()
        if at:
            r |= set(A)
        if sh:
            r |= {s for s in A if vis(s)}
        if te or sh:
            r |= tf if co else tt
        if th:
            r |= set(ext)
        out.append(",".join(sorted(r)))
    return out


class Dom:
    """What grounding can see: literals that are false in any case leave nothing behind."""

    def __init__(self, text):
        P = asp.parse(text)
        self.poss = {a for s in P for a in ([s[1]] if s[0] == "ext" else s[2] if s[0] == "rule" else [])}
        self.facts = {s[2][0] for s in P if s[0] == "rule" and not s[1] and len(s[2]) == 1 and not s[3]}

    def ok(self, a, sg):
        return a in self.poss if sg else a not in self.facts

    def show(self, show):
        return (show[0], show[1], [(t, c) for t, c in show[2] if all(self.ok(*l) for l in c)])

    def mins(self, P):
        return [(s[0], s[1], tuple(e for e in s[2] if self.ok(e[0], e[1]))) for s in P if s[0] == "min" and any(self.ok(e[0], e[1]) for e in s[2])]


def unpack(m):
    f = m.split("|")
    assert len(f) == 7, m
    a, filt, text, cost, prio, info, q = f
    con, *tru = q.split(" ")
    return a, filt.split(";"), text, cost, prio, info.split(), con, tru


def splits(s):
    """Symbols separated by commas outside brackets and strings, joined again sorted."""
    return ",".join(sorted(asp.split(s, ",")))


def check_model(ctx, k, m, n, X, dom, lit, show, M, it, typ="StableModel", ext=(), old=True, opt=None, thread="0"):
    a, filt, text, cost, prio, info, con, tru = unpack(m)
    want = expect(X, dom, show, ext)
    names = ["atoms", "terms", "shown", "theory", "complement"]
    for i in range(32):
        if filt[i] != want[i]:
            ctx.fail(k + ": symbols(%s)" % ",".join(n for j, n in enumerate(names) if i >> j & 1), "got %s, expected %s [%s]" % (filt[i], want[i], ctx.cur))
    t = text.strip("{} ")
    ctx.eq(k + ": text", sorted(x.rstrip(",") if it.lang == "c++" else x for x in asp.split(t, " ") if x), sorted(asp.split(want[4], ",")), "printed model")
    c = asp.cost(M, X)
    ctx.eq(k + ": cost", cost, ",".join(str(c[p]) for p in sorted(c, reverse=True)), "cost")
    if not old and it.lang != "lua":
        ctx.eq(k + ": priority", prio, ",".join(str(p) for p in sorted(c, reverse=True)), "priority")
    ctx.eq(k + ": number", info[0], str(n), "number")
    ctx.eq(k + ": thread", info[1], thread, "thread") if thread is not None else None
    ctx.eq(k + ": type", info[3], typ, "type")
    if opt is not None:
        ctx.eq(k + ": optimality", info[2], opt, "optimality_proven")
    # with consequences, literals refer to the stable model found last
    for s, x, y in zip(PROBES, con, tru):
        ctx.eq(k + ": contains", x, "1" if s in X else "0", s)
        if s in lit:
            w = ("10" if s in X else "01")
            if y != "-" and not old and it.lang != "lua" and typ == "StableModel":
                y = y[:2]
            if typ == "StableModel":
                ctx.eq(k + ": truth of literal", y, w, s)
        else:
            ctx.eq(k + ": unknown atom", y, "-", s)


def start(it, args, text):
    it.start(args, text)
    it.do("level", "f", " ".join(PROBES))
    dom, lit = [], {}
    for x in asp.split(it.do("atoms"), " "):
        s, _, l = x.rpartition("/")
        s = s.rpartition("/")[0]
        dom.append(s)
        lit[s] = l
    return dom, lit


def combos(tier):
    return list(itertools.product(BASES, SHOWS, MINS))


def plain(ctx, lang, i, n):
    it = sl.Interp(ctx, lang)
    for base, show, mini in sl.chunks(combos(ctx.tier), i, n):
        text = base + " " + show[0] + " " + mini
        P = asp.parse(base + " " + mini)
        st = {asp.key(X): X for X in asp.stable(P)}
        D = Dom(base)
        sh = D.show(show)
        M = D.mins(P)
        for mode in {"python": ["c", "y", "m", "a", "yA"], "c++": ["c", "ye", "me", "a", "yAe"], "lua": ["c", "y"]}[lang]:
            args = "0 --opt-mode=" + ("enum" if mode[0] != "y" else "ignore" if not mini else "enum")
            ctx.journal("%s %r %s %s" % (lang, text, mode, args))
            ctx.execs += 1
            dom, lit = start(it, args, text)
            # at the first model symbols are added twice and the model is queried again
            # (lua supports this in callbacks only)
            add = (lang, mode) != ("lua", "y")
            evs = it.solve(mode, "", not add and "0:again" or "1:extend foo(1) \"q\";1:again;1:extend -bar;1:again")
            if evs is None:
                continue
            ms = [e[1:] for e in evs if e[0] == "M"]
            k = "%s %s" % (lang, mode)
            for j, m in enumerate(ms):
                ctx.transitions += 1
                a = m.split("|")[0]
                ctx.state((text, a))
                ctx.nontrivial += 1
                if a not in st:
                    ctx.fail(k + ": atoms", "%s is no stable model [%s]" % (a, ctx.cur))
                    continue
                if not add:
                    check_model(ctx, k, m, 1 + j // 2, st[a], dom, lit, sh, M, it)
                    continue
                ext = [(), ('"q"', "foo(1)"), ('"q"', "foo(1)", "-bar")][j] if j < 3 else ()
                check_model(ctx, k, m, 1 if j < 3 else j - 1, st[a], dom, lit, sh, M, it, ext=ext, opt="0" if not mini else None)
            ctx.eq(k + ": number of models", len(ms), (len(st) + 2 if add else 2 * len(st)) if st else 0, text)
    it.i.close()


def conseq(ctx, lang, lib):
    """Brave and cautious consequences."""
    it = sl.Interp(ctx, lang)
    # (consequences range over the shown atoms, so there are no show statements here)
    for base, show in itertools.product(BASES, SHOWS[:1]):
        text = base
        P = asp.parse(base)
        st = asp.stable(P)
        D = Dom(base)
        sh = D.show(show)
        M = D.mins(P)
        for em, typ in (("brave", "BraveConsequences"), ("cautious", "CautiousConsequences")):
            for mode in ("c", "y"):
                ctx.journal("%s %r %s %s" % (lang, text, mode, em))
                ctx.execs += 1
                dom, lit = start(it, "0 --enum-mode=" + em, text)
                evs = it.solve(mode)
                if evs is None:
                    continue
                ms = [e[1:] for e in evs if e[0] == "M"]
                k = "%s %s" % (lang, em)
                q = [frozenset(asp.split(m.split("|")[0], ",")) for m in ms]
                ctx.check(all(x < y if em == "brave" else x > y for x, y in zip(q, q[1:])), k + ": consequences grow or shrink", q)
                if st:
                    w = frozenset.union(*st) if em == "brave" else frozenset.intersection(*st)
                    ctx.eq(k + ": consequences", q[-1:], [w], text)
                    for m in ms if lib == "eng" and lang != "lua" else []:
                        a, _, _, _, _, _, _, tru = unpack(m)
                        now = asp.split(a, ",")
                        for s, y in zip(PROBES, tru):
                            if s not in lit:
                                continue
                            x = y[2:]
                            ctx.check(x in ("0", "1", "-"), k + ": is_consequence", y)
                            ctx.check(not (x == "1" and s not in w) and not (x == "0" and s in w), k + ": is_consequence against the consequences", "%s: %s, all %s, model %s [%s]" % (s, x, sorted(w), a, ctx.cur))
                            ctx.check(not (em == "cautious" and s not in now and x != "0"), k + ": excluded consequence", "%s: %s, model %s [%s]" % (s, x, a, ctx.cur))
                            ctx.check(not (s in D.facts and x != "1"), k + ": fact is a consequence", "%s: %s [%s]" % (s, x, ctx.cur))
                    if True:
                        check_model(ctx, k, ms[-1], len(ms), w, dom, lit, sh, M, it, typ=typ, old=lib == "sys")
                else:
                    ctx.eq(k + ": no consequences", q, [], text)
                for m in ms:
                    ctx.transitions += 1
                    ctx.eq(k + ": type", m.split("|")[5].split()[3], typ, text)
    it.i.close()


SHOWS_T = ("", SHOWS[6][0])
BASES_T = (BASES[3], BASES[7])


def sched(ctx, lang, i, n):
    it = sl.Interp(ctx, lang)
    for base, show in sl.chunks(list(itertools.product(BASES, SHOWS)), i, n):
        mini = MINS[(len(base) + len(show[0])) % 3]
        text = base + " " + show[0] + " " + mini
        P = asp.parse(base + " " + mini)
        st = {asp.key(X): X for X in asp.stable(P)}
        D = Dom(base)
        sh = D.show(show)
        M = D.mins(P)
        for args, mode in (("0 --opt-mode=enum", "ce"),) + ((("0 --opt-mode=enum -t 2", "c"),) if show[0] in SHOWS_T and base in BASES_T else ()):
            def body(ch):
                ctx.journal("%s %r %s %s schedule=%s" % (lang, text, mode, args, ch.prefix))
                dom, lit = start(it, args, text)
                evs = it.solve(mode, "", "2:extend x;2:again")
                if evs is None:
                    return
                ms = [e[1:] for e in evs if e[0] == "M"]
                k = "%s %s engine" % (lang, mode)
                for j, m in enumerate(ms):
                    a = m.split("|")[0]
                    if not ctx.check(a in st, k + ": atoms", a):
                        continue
                    ctx.state((text, a))
                    check_model(ctx, k, m, j + 1 if j < 2 else j, st[a], dom, lit, sh, M, it, ext=("x",) if j == 2 else (), old=False, thread="0" if "-t" not in args else None)
                ctx.eq(k + ": number of models", len(ms), len(st) + (len(st) > 1), text)
                if "e" in mode and lang != "lua":
                    ctx.eq(k + ": last model", [e[1:].split("|")[0] for e in evs if e[0] == "L"], [m.split("|")[0] for m in ms[-1:]], text)

            it.explore("%s %s %s" % (lang, args, text), body)
    it.i.close()


def seqs(ctx, lib):
    """The sequences Python returns for the symbols of a model."""
    import clingo
    from clingo.symbol import parse_term

    for syms in ([], ["a"], ["a", "b"], ["p(1)", "p(2)", "-q"], ['"x"', "7", "(1,)", "f(a)", "#inf"]):
        ctl = clingo.Control()
        ctl.add("base", [], "#show. " + " ".join("#show %s." % x for x in syms) + " {z}.")
        ctl.ground([("base", [])])
        ctl.configuration.solve.models = 0
        for mode in ("callback", "yield"):
            ctx.journal("symbols of %s in %s" % (syms, mode))

            def look(m):
                for kw in ({"shown": True}, {"terms": True}, {"atoms": True, "complement": True}):
                    s = m.symbols(**kw)
                    ref = list(s)
                    ctx.state((tuple(syms), mode, str(kw)))
                    if "atoms" not in kw:
                        ctx.eq("symbols", sorted(map(str, ref)), sorted(map(str, map(parse_term, syms))), "symbols(%s)" % kw)
                    sl.seqcheck(ctx, "python: symbols", s, ref, absent=[parse_term("no"), parse_term("9")])
                    for x, y in ((s, ref), (s[1:], ref[1:]), (s[::-1], ref[::-1])):
                        ctx.eq("python: str of symbols", str(x), "[" + ", ".join(map(str, y)) + "]" if x is s else str(y), "str")
                        ctx.eq("python: repr of symbols", repr(x), repr(y), "repr")
                sh = str(m)
                ctx.eq("python: str of model", sorted(sh.split(" ")) if sh else [], sorted(map(str, m.symbols(shown=True))), "str")

            if mode == "callback":
                ctl.solve(on_model=look)
            else:
                with ctl.solve(yield_=True) as h:
                    for m in h:
                        look(m)


SIZES = list(range(1, 25)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]


def wide(ctx, lang, lib):
    """Every size of a model and of its cost; sums beyond the range of a weight."""
    it = sl.Interp(ctx, lang)
    for n in SIZES:
        nums = range(1, n + 1)
        text = "p(1..%d). q(2*X):-p(X). {a}. #show p/1. #show -a/0. #show t(X):p(X),a. #minimize{X@X:p(X),a}." % n
        A = ["p(%d)" % i for i in nums] + ["q(%d)" % (2 * i) for i in nums]
        T = ["t(%d)" % i for i in nums]
        for mode in ("c", "y"):
            ctx.journal("%s %s wide %d %s" % (lang, lib, n, mode))
            ctx.execs += 1
            ctx.nontrivial += 1
            it.start("0 --opt-mode=enum", text)
            it.do("level", "f", "a")
            evs = it.solve(mode, "", "1:extend %s;1:again" % " ".join("x(%d)" % i for i in nums) if mode == "c" else "")
            if evs is None:
                continue
            k = "%s %s wide" % (lang, mode)
            ms = [e[1:] for e in evs if e[0] == "M"]
            ctx.eq(k + ": number of models", len(ms), 3 if mode == "c" else 2, text)
            seen = set()
            for j, m in enumerate(ms):
                a, filt, txt, cost, prio, info, con, tru = unpack(m)
                has = "a" in asp.split(a, ",")
                seen.add(has)
                X = A + ["a"] * has
                ext = ["x(%d)" % i for i in nums] if mode == "c" and j == 1 else []
                sh = A[:n]
                for q in range(16):
                    w = set(X) if q & 1 else set()
                    if q & 4:
                        w |= set(sh)
                    if q & 6 and has:
                        w |= set(T)
                    if q & 8:
                        w |= set(ext)
                    ctx.eq(k + ": symbols", filt[q], ",".join(sorted(w)), "filter %d" % q)
                ctx.eq(k + ": cost", cost, ",".join(str(p if has else 0) for p in reversed(nums)), text)
                if lib == "eng" and lang != "lua":
                    ctx.eq(k + ": priority", prio, ",".join(str(p) for p in reversed(nums)), text)
                ctx.state((n, a))
            ctx.eq(k + ": models", seen, {True, False}, text)
    W = 2147483647
    for ws in ([W], [-W], [W, W], [-W, -W], [W, W, W], [-W, -W, -W, 5], [W, -W], [W, -3], [1, 1, W], [-1, W, W, -7]):
        n = len(ws)
        text = "{a(0..%d)}. #minimize{%s}. #minimize{3@7:a(0)}." % (n - 1, ";".join("%d,%d:a(%d)" % (x, i, i) for i, x in enumerate(ws)))
        want = {}
        for r in range(n + 1):
            for c in itertools.combinations(range(n), r):
                want[",".join("a(%d)" % i for i in c)] = "%d,%d" % (3 * (0 in c), sum(ws[i] for i in c))
        for mode in ("c", "y"):
            ctx.journal("%s %s sum %s %s" % (lang, lib, ws, mode))
            ctx.execs += 1
            it.start("0 --opt-mode=enum", text)
            it.do("level", "f", "a")
            evs = it.solve(mode)
            if evs is None:
                continue
            got = {m.split("|")[0]: m.split("|")[3] for m in (e[1:] for e in evs if e[0] == "M")}
            ctx.eq("%s %s: sums" % (lang, mode), got, want, text)
    it.i.close()


def tasks(tier):
    out = [Py("seqs", x, lib=x, name="seqs-" + x) for x in ("sys", "eng")]
    out += [Py("plain", l, i, 4, lib="sys", name="plain-%s-%d" % (l, i)) for l in ("python", "c++", "lua") for i in range(4)]
    out += [Py("conseq", l, x, lib=x, name="conseq-%s-%s" % (l, x)) for l in ("python", "c++", "lua") for x in ("sys", "eng")]
    out += [Py("wide", l, x, lib=x, name="wide-%s-%s" % (l, x)) for l in ("python", "c++", "lua") for x in ("sys", "eng")]
    out += [Py("sched", l, i, 4, lib="eng", name="sched-%s-%d" % (l, i)) for l in ("python", "c++", "lua") for i in range(4)]
    return out
