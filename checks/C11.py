"""C11: heuristic decisions are offered and honoured without changing the answers."""
import itertools

import asp
import checks.solvelib as sl
from checks.C09 import View, compare, history
from checks.ipy import OLD
from vplib import Py

PID = "C11"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of decision strategies, under all decision orders of the engine, against the stable-model semantics, the decisions found in the assignment and a heuristic on the C interface"
NOTE = "All strategies of up to three rules (conditions on literals, answers by literal, fallback or nothing) over small programs in Python, C++ and Lua, combined with watches and histories of searches; all decision orders and thread schedules of a small program on the engine built from the sources."
RULE = ""
BUILD = ["lib/vpchoice.so", "sys/py/_clingo.so", "sys/lua/clingo.so", "sys/drv/icpp", "sys/drv/capi", "eng/py/_clingo.so", "eng/lua/clingo.so", "eng/drv/icpp", "eng/drv/capi"]
ASSUMPTIONS = ["the reference semantics in lib/asp.py"]

PROGS = ["{a;b;c}.", "{a;b}. c:-a,b. :-not a,not b.", "a;b;c.", "a:-not b. b:-not a. {c}:-a.", "{a}. {b}:-a. {c}:-b. #external e.", "a. {b;c}. :-b,c."]
ANSWERS = ["pick a", "pick -a", "pick b,-a", "pick -c,-b", "pick a,b,c", "pick -c,-b,-a", "none", "fb"]
CONDS = [".", "a", "-b"]


def strategies(tier):
    r = ["d:%s:%s" % x for x in itertools.product(CONDS, ANSWERS)]
    yield ""
    yield from r
    for x, y in itertools.product(r, r):
        if x[2] == "." and not x.startswith("d:.:pick"):
            continue
        if tier != "quick" or (len(x) + len(y)) % 2:
            yield x + ";" + y
    for x in ANSWERS:
        for y in ANSWERS[:6]:
            yield "d1:.:%s;d:.:%s" % (x, y)
            yield "d2:.:%s;d:a:%s;d:.:fb" % (x, y)


def honoured(ctx, k, log):
    """The answers are the next decisions."""
    want = {}
    seen = {}
    for line in log:
        n, ev = line[0], line[1]
        if ev not in "PUCD":
            if ev == "I":
                want.clear()
            continue
        head, _, rest = line[2:].partition("|")
        w = head.split()
        v = View(rest)
        t = w[0]
        if t in want and ev in "PCD":
            lv, r, fb, free, tr = want.pop(t)
            # a conflict may have undone the decision before anything was reported
            if v.level > lv and v.trail[:1] and v.trail[: v.offs[lv][1]] == tr:
                if r == 0:
                    # (no answer: the fallback or, without one, what the solver chooses)
                    ctx.check(v.dec[lv] in free, k + ": decision without an answer", "decided %d, fallback %d: %s [%s]" % (v.dec[lv], fb, line, ctx.cur))
                else:
                    ctx.check(v.dec[lv] == r, k + ": answer not honoured", "decided %d, answered %d, fallback %d: %s [%s]" % (v.dec[lv], r, fb, line, ctx.cur))
                    seen["honoured"] = seen.get("honoured", 0) + 1
        if ev == "D":
            fb, r = int(w[1]), int(w[2])
            if fb:
                ctx.check(v.value(fb) == "-", k + ": fallback is not free", line)
            for q in v.problems():
                ctx.fail(k + ": assignment in decide", "%s: %s [%s]" % (q, line, ctx.cur))
            ctx.check(not v.total, k + ": decision on a total assignment", line)
            free = {l for l in v.lits if v.value(l) == "-"}
            want[t] = (v.level, r, fb, free, v.trail)
    ctx.nontrivial += bool(seen)


def judge(ctx, k, p, log, res, hist):
    honoured(ctx, k, log)
    st = asp.stable(asp.parse(p))
    for r, h in zip(res, [x for x in hist if x[0] == "solve"]):
        ctx.transitions += 1
        if r.startswith("E:"):
            continue
        e = sl.events(r)
        ass = h[1].split() if len(h) > 1 else []
        w = sorted(asp.key(X) for X in st if all((x[1:] in X) == (x[0] == "+") for x in ass))
        ctx.eq(k + ": models", sorted(sl.models(e[:-1])), w, p)
        ctx.eq(k + ": result", sl.final(e)[:2] + sl.final(e)[3], "101" if w else "011", p)


def run_all(ctx, lang, i, n):
    it = sl.Interp(ctx, lang)
    c = sl.Interp(ctx, "c")
    k = "%s %s" % (lang, "sys" if OLD else "eng")
    for j, (s, p) in enumerate(itertools.product(strategies(ctx.tier), PROGS)):
        if j % n != i:
            continue
        hist = history(p, "12A"[(j // n) % 3]) if (j // n) % 3 != 2 or "a" in p else history(p, "1")
        for init, fl in [("", "id"), ("watch a;watch -b;cmode F", "ipucd")]:
            ctx.journal("%s %r %s %s" % (k, p, s, (init, fl)))
            ctx.execs += 1
            log, res = compare(ctx, it, c, k, "0", hist, [(init, s, fl)], [set()], fl)
            judge(ctx, k, p, log, res, hist)
    # two heuristics: the first to answer decides
    for s1, s2, p in itertools.product(["d:.:pick a", "d:.:none", "d:a:pick -c;d:.:none", "d:.:fb"], ["d:.:pick -b", "d:.:none", "d:b:pick c", "d:.:fb"], PROGS):
        j += 1
        if j % n != i:
            continue
        ctx.journal("%s %r %s | %s" % (k, p, s1, s2))
        ctx.execs += 1
        hist = history(p, "1")
        log, res = compare(ctx, it, c, k, "0", hist, [("", s1, "id"), ("watch a", s2, "ipucd")], [set(), set()], "ipucd")
        judge(ctx, k, p, [], res, hist)
    it.i.close()
    c.i.close()


def orders(ctx, lang, i, n):
    it = sl.Interp(ctx, lang)
    c = sl.Interp(ctx, "c")
    k = "%s all orders" % lang
    sc = [(s, p, "0") for s in strategies("quick") for p in ("{a;b}.", "a:-not b. b:-not a. {c}:-a.") + (tuple(PROGS[:2]) if ctx.tier != "quick" else ()) if ";" not in s or ctx.tier != "quick" and "d1" in s]
    sc += [(s, "{a}.", "0 -t 2") for s in ("d:.:pick a", "d:.:pick -a", "d1:.:none", "d:.:fb")]
    for j, (s, p, args) in enumerate(sc):
        if j % n != i or "c" in s and "c" not in p:
            continue

        def body(ch):
            ctx.journal("%s %r %s choices=%s" % (k, p, s, ch.prefix))
            hist = history(p, "1")
            log, res = compare(ctx, it, c, k, args, hist, [("watch a;watch -b;cmode F" if "b" in p else "watch a", s, "ipucd")], [set()], "ipucd", ch)
            judge(ctx, k, p, log, res, hist)

        it.explore("%s %s" % (p, s), body)
    it.i.close()
    c.i.close()


def tasks(tier):
    out = []
    for lib in ("sys", "eng"):
        for l, n in (("python", 4), ("c++", 2), ("lua", 2)):
            out += [Py("run_all", l, i, n, lib=lib, name="all-%s-%s-%d" % (l, lib, i)) for i in range(n)]
    for l in ("python", "c++", "lua"):
        out += [Py("orders", l, i, 4, lib="eng", name="orders-%s-%d" % (l, i)) for i in range(4)]
    return out
