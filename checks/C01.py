"""C01: solving enumerates exactly the stable models, in every mode."""
import itertools
import asp
import checks.solvelib as sl
from vplib import Exe, Py

PID = "C01"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of all small programs, solve modes and search schedules, against a brute-force stable-model semantics"
NOTE = "All programs of up to 2 (thorough 3) rules over a 22 rule alphabet with up to 5 atoms in every way of solving, model limit and stopping point, in Python, C++ and Lua against the installed solver; all decision orders and background progress points of the smaller programs against a deterministic engine built from the sources."
RULE = ""
BUILD = ["lib/vpchoice.so", "sys/py/_clingo.so", "sys/lua/clingo.so", "sys/drv/icpp", "eng/py/_clingo.so", "eng/drv/icpp"]
ASSUMPTIONS = [
    "the reference semantics in lib/asp.py (reduct and subset minimality over all interpretations)",
    "schedules of clasp itself are explored on the replacement engine only; its multi-threaded search is not modelled beyond the choice of the reporting thread",
]
N = 5


def judge(ctx, lang, evs, want, mode, limit, stop):
    """want: list of model keys; limit 0 = all; stop: model after which to stop or None"""
    if evs is None:
        return
    n = len(want)
    ms = sl.models([e for e in evs if e[0] == "M"])
    k = "%s %s" % (lang, mode)
    ctx.state((tuple(sorted(want)), mode, limit, stop))
    ctx.nontrivial += n > 0
    if mode[0] != "p":
        ctx.check(len(set(ms)) == len(ms), k + ": model reported twice", ms)
        ctx.check(set(ms) <= set(want), k + ": reports something that is no stable model", (ms, want))
        exp = min([n] + ([limit] if limit else []) + ([stop] if stop else []))
        ctx.check(len(ms) == exp, k + ": number of models", "%s of %s models, expected %d" % (ms, want, exp))
    r = sl.final(evs)
    ctx.eq(k + ": result is satisfiable or not", r[:3], "100" if n else ("010" if lang != "x" else ""), "result %s" % r)
    ctx.eq(k + ": result is interrupted", r[4], "0", "result %s" % r)
    bound = min([x for x in (limit, stop) if x] or [n + 1])
    if bound > n:
        ctx.eq(k + ": exhausted after complete search", r[3], "1", r)
    elif bound < n:
        ctx.eq(k + ": exhausted although models are missing", r[3], "0", r)
    f = [e[1:] for e in evs if e[0] == "F"]
    if "e" in mode:
        if mode[0] == "y" and stop:  # the result so far against that of the ended search
            ctx.check(len(f) == 1 and f[0][:2] == r[:2], k + ": finish handler called once", f)
        else:
            ctx.eq(k + ": finish handler called once with the result", f, [r], "finish")


def programs(k):
    for t in sl.sets(sl.RULES, k):
        yield t, t
    for a, b in sl.NONGROUND:
        if b:
            yield a, b


def plain(ctx, lang, i):
    it = sl.Interp(ctx, lang)
    progs = sl.chunks(list(programs(2 if ctx.tier == "quick" else 3)), i, N)

    def one(text, want, mode, limit, stop):
        ctx.journal("%s %r mode=%s limit=%s stop=%s" % (lang, text, mode, limit, stop))
        ctx.execs += 1
        ctx.transitions += 1
        it.start({None: ""}.get(limit, str(limit)), text)
        evs = it.solve(mode, "", "%d:stop" % stop if stop else "")
        judge(ctx, lang, evs, want, mode, 1 if limit is None else limit, stop)

    for t, g in progs:
        want = [asp.key(x) for x in asp.stable(asp.parse(g))]
        for mode in sl.MODES[lang]:
            one(t, want, mode, 0, None)
            if mode[0] != "p":
                for s in (1, 2):
                    if s <= len(want):
                        one(t, want, mode, 0, s)
            for l in (None, 1, 2, 3):
                if l is None or l <= len(want) + 1:
                    one(t, want, mode, l, None)
        # solving again reports the same
        if want:
            it.start("0", t)
            for rep in range(2):
                judge(ctx, lang, it.solve("y"), want, "y", 0, None)
                judge(ctx, lang, it.solve("c", "", "1:stop"), want, "c", 0, 1)
    # interrupting during a model
    for t in ("{a;b}.", "{a}.", "a."):
        want = [asp.key(x) for x in asp.stable(asp.parse(t))]
        for mode in ("c", "y"):
            ctx.journal("%s %r interrupt in %s" % (lang, t, mode))
            ctx.execs += 1
            it.start("0", t)
            evs = it.solve(mode, "", "1:interrupt")
            if evs:
                ms, r = sl.models(evs[:-1]), sl.final(evs)
                ctx.check(set(ms) <= set(want) and len(set(ms)) == len(ms) and ms, "%s %s: models of interrupted search" % (lang, mode), ms)
                ctx.check(r[0] == "1" and (len(ms) == len(want) or r[3] == "0" and r[4] == "1"), "%s %s: result of interrupted search" % (lang, mode), (ms, r))
    it.i.close()


SIZES = [4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]


def wide(ctx, lang, lib):
    """Every number of models, with limits and stops around it."""
    it = sl.Interp(ctx, lang)
    for n in SIZES if lib == "sys" else [x for x in SIZES if x < 20]:
        text = "1{%s}1." % ";".join("x%d" % i for i in range(n)) if n % 2 else "{%s}1. " % ";".join("x%d" % i for i in range(n - 1))
        want = ["x%d" % i for i in range(n)] if n % 2 else ["x%d" % i for i in range(n - 1)] + [""]
        for mode in sl.MODES[lang]:
            for limit, stop in ((0, None), (n - 1, None), (n, None), (n + 1, None)) + (((0, n - 1), (0, n), (n, n - 1)) if mode[0] != "p" else ()):
                ctx.journal("%s wide %d mode=%s limit=%s stop=%s" % (lang, n, mode, limit, stop))
                ctx.execs += 1
                ctx.transitions += n
                it.start(str(limit), text)
                judge(ctx, lang, it.solve(mode, "", "%d:stop" % stop if stop else ""), want, mode, limit, stop)
    it.i.close()


def sched(ctx, lang, i):
    it = sl.Interp(ctx, lang)
    progs = [(t, t) for t in sl.sets(sl.RULES[:16], 2 if ctx.tier == "quick" else 3)]
    for t, g in sl.chunks(progs, i, N):
        want = [asp.key(x) for x in asp.stable(asp.parse(g))]
        if len(want) > 4:
            continue
        modes = ["c", "yA"] if ctx.tier == "quick" else [m for m in sl.MODES[lang]]
        for mode in modes:
            for args in ("0", "0 -t 2") if mode == "c" else ("0",):
                def body(ch):
                    ctx.journal("%s %r mode=%s args=%s schedule=%s" % (lang, t, mode, args, ch.prefix))
                    it.start(args, t)
                    judge(ctx, lang, it.solve(mode), want, mode, 0, None)

                it.explore("%s %s %s %s" % (lang, mode, args, t), body)
    it.i.close()


def opt(ctx, lang):
    """Optimization: sequences of improving models, all optimal models."""
    it = sl.Interp(ctx, lang)
    W = [1, 2, -1]
    for base in ("{a;b}.", "1{a;b;c}1.", "{a;b}. :-not a,not b.", "a;b. c:-a.", "a. :-a."):
        for w1 in W:
            for w2 in W:
                for p2 in (0, 1):
                    t = base + " #minimize{%d,x:a; %d@%d,y:b}." % (w1, w2, p2)
                    P = asp.parse(t)
                    st = asp.stable(P)
                    cs = {asp.key(x): asp.costs(P, x) for x in st}
                    best = min(cs.values()) if cs else None
                    opts = sorted(k for k in cs if cs[k] == best)
                    for mode in ("c", "y"):
                        for om in ("opt", "optN", "enum", "ignore"):
                            ctx.journal("%s %r %s %s" % (lang, t, mode, om))
                            ctx.execs += 1
                            ctx.transitions += 1
                            ctx.nontrivial += len(st) > 0
                            it.start("0 --opt-mode=%s" % om, t)
                            it.do("level", "f")
                            evs = it.solve(mode)
                            it.do("level", "b")
                            if evs is None:
                                continue
                            full = [e[1:].split("|") for e in evs if e[0] == "M"]
                            ms = [m[0] for m in full]
                            k = "%s opt-mode %s" % (lang, om)
                            for m in full:
                                ctx.eq(k + ": cost", m[3], "" if om == "ignore" else ",".join(map(str, cs.get(m[0], "?"))), m[0])
                            prov = [m[0] for m in full if m[5].split()[2] == "1"]
                            if om in ("enum", "ignore"):
                                ctx.eq(k + ": models", sorted(ms), sorted(cs), t)
                            elif om == "opt":
                                q = [cs.get(m) for m in ms]
                                ctx.check(all(x is not None for x in q) and all(x > y for x, y in zip(q, q[1:])), k + ": models improve", ms)
                                ctx.eq(k + ": last model is optimal", q[-1:], [best] if cs else [], ms)
                            else:
                                ctx.eq(k + ": proven models are the optimal ones", sorted(prov), opts, ms)
                            ctx.eq(k + ": result", sl.final(evs)[:2], "10" if cs else "01", t)
    it.i.close()


def bounds(ctx):
    """Lower bounds reported while optimizing: sound, increasing, and the same in Python and C++."""
    its = {l: sl.Interp(ctx, l) for l in ("python", "c++")}
    most = 0
    for base in ("2{a;b;c}.", "{a;b;c}. :-not a,not b. :-not b,not c.", "1{a;b;c}1."):
        for x, y, z in itertools.product(("a", "b", "not c"), repeat=3):
            t = base + " #minimize{2@2,x:%s;1@2,y:b}. #minimize{1@-1:%s;3@-1,y:b}. #minimize{2@5:%s;2000000000@5,z:a,b}." % (x, y, z)
            P = asp.parse(t)
            st = asp.stable(P)
            best = min(asp.costs(P, X) for X in st)
            for strat, om in itertools.product(("usc", "usc,oll,1", "usc,k", "bb,lin"), ("opt", "optN")):
                ctx.journal("bounds %r %s %s" % (t, strat, om))
                ctx.execs += 1
                ctx.nontrivial += 1
                logs = {}
                for l, it in its.items():
                    it.start("0 --opt-strategy=%s --opt-mode=%s" % (strat, om), t)
                    it.do("level", "f")
                    evs = it.solve("ce")
                    logs[l] = [e if e[0] != "M" else "M" + e.split("|")[0][1:] for e in evs or []]
                    it.do("level", "b")
                ctx.eq("events in C++ and Python", logs["c++"], logs["python"], "%s %s %s" % (t, strat, om))
                bs = [tuple(map(int, e[1:].split(","))) for e in logs["python"] if e[0] == "U"]
                for b in bs:
                    ctx.transitions += 1
                    most = max(most, len(b))
                    ctx.check(1 <= len(b) <= len(best) and b <= tuple(best[: len(b)]), "bounds are lower bounds", "%s of %s: %s %s %s" % (b, best, t, strat, om))
                for a, b in zip(bs, bs[1:]):
                    ctx.check(a[: len(b)] < b or b[: len(a)] == a, "bounds improve", "%s %s: %s %s %s" % (a, b, t, strat, om))
                ctx.state((t, tuple(bs)))
    ctx.check(most >= 2, "bounds over several priorities", most)
    for it in its.values():
        it.i.close()


def tasks(tier):
    out = []
    for lang in ("python", "c++", "lua"):
        out += [Py("plain", lang, i, lib="sys", name="plain-%s-%d" % (lang, i)) for i in range(N)]
        out += [Py("wide", lang, l, lib=l, name="wide-%s-%s" % (lang, l)) for l in ("sys", "eng")]
        out.append(Py("opt", lang, lib="sys", name="opt-" + lang))
    out.append(Py("bounds", lib="sys", name="bounds"))
    for lang in ("python", "c++", "lua"):
        out += [Py("sched", lang, i, lib="eng", name="sched-%s-%d" % (lang, i)) for i in range(N)]
    return out
