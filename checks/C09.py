"""C09: propagators see every assignment change, consistently."""
import itertools
import re

import checks.solvelib as sl
from checks.ipy import OLD
from vplib import Py

PID = "C09"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of search trees under scripted propagators: every event and every view of the assignment compared with a propagator on the C interface under the same choices, and checked against invariants of the protocol"
NOTE = "All watch sets over up to three atoms, check modes, sets of callbacks and histories of the bound, in Python, C++ and Lua on both libraries; all decision orders (and thread schedules of a small program) on the engine built from the sources."
RULE = ""
BUILD = ["lib/vpchoice.so", "sys/py/_clingo.so", "sys/lua/clingo.so", "sys/drv/icpp", "sys/drv/capi", "eng/py/_clingo.so", "eng/lua/clingo.so", "eng/drv/icpp", "eng/drv/capi"]
ASSUMPTIONS = ["the propagator on the C interface (checks/capi.cc) logs faithfully", "the solver on the other side of the C interface is the system library or the engine in engine/"]

PROGS = ["{a;b}. c:-a,b.", "{a}. b:-a. c:-not a.", "a. {b}. :-b,not c. {c}.", "a;b;c.", "{a;b;c}. :-a,b. :-b,c.", ":-not a. {a;b}.", "{a}. #external b. [true] c:-b.", "{a}. :-a. b."]
THEORY = "#theory t{x{};&d/0:x,any;&s/1:x,{=},x,any}. {a;b}. &d{1:a;2,3}:-b. &s(1){1:a,b}=2. c:-a."


class View:
    def __init__(self, s):
        h, v, d, t, o = s.split("|")
        w = h.split()
        self.level, self.root = int(w[0]), int(w[1])
        self.conflict, self.total = w[2] == "10" or w[2] == "11", w[2][1] == "1"
        self.lits = {}
        self.bad = [x for x in ("!",) if "!" in s]
        self.first = []
        for x in v.replace("!", " ").split():
            l, r = x.split(":")
            l = int(l)
            self.first.append(l)
            p, n = r.split(",")[:2]
            self.lits[l] = p
            self.lits[-l] = n
        self.dec = [int(x) for x in d.split()]
        self.trail = [int(x) for x in t.replace("!", " ").split() if x.lstrip("-").isdigit()]
        self.offs = [tuple(map(int, x.split("-"))) for x in o.replace("!", " ").split() if x[0].isdigit()]

    def value(self, l):
        return self.lits[l][0]

    def lv(self, l):
        return int(self.lits[l][5:])

    def problems(self, undo=False):
        p = list(self.bad)
        for l, r in self.lits.items():
            o = self.lits[-l]
            v = r[0]
            if {"1": "0", "0": "1", "-": "-"}[v] != o[0]:
                p.append("values of %d and its complement" % l)
            if (r[1] == "1") != (v == "1") or (r[2] == "1") != (v == "0"):
                p.append("is_true/is_false of %d" % l)
            if r[4] != "1":
                p.append("has_literal %d" % l)
            if (r[3] == "1") != (v != "-" and r[5:] == "0"):
                p.append("is_fixed %d" % l)
            if v != "-" and not 0 <= int(r[5:]) <= self.level:
                p.append("level of %d" % l)
        if self.total != all(r[0] != "-" for r in self.lits.values()):
            p.append("is_total")
        if self.root > self.level and not undo or len(self.dec) != self.level:
            p.append("levels")
        if len(set(map(abs, self.trail))) != len(self.trail):
            p.append("trail has duplicates")
        if not undo:
            if {l for l in self.lits if self.lits[l][0] == "1"} != set(self.trail):
                p.append("trail and values differ")
            if not self.offs or self.offs[0][0] != 0 or self.offs[-1][1] != len(self.trail) or any(x[1] != y[0] for x, y in zip(self.offs, self.offs[1:])) or len(self.offs) != self.level + 1:
                p.append("ranges of the trail")
            else:
                for l, (x, y) in enumerate(self.offs):
                    if any(self.lv(z) != l for z in self.trail[x:y]):
                        p.append("levels along the trail")
                    if l and (x == y or self.trail[x] != self.dec[l - 1]):
                        p.append("decisions")
        return p


class Judge:
    """The protocol of one propagator and one thread."""

    def __init__(self, watched, mode):
        self.watched = watched  # literals, None: not known
        self.mode = mode
        self.rep = []  # (level, literals)
        self.pick = None

    def step(self, ev, nums, v, undo, ok):
        rep = [x for _, c in self.rep for x in c]
        p = []
        if ev == "U" and not undo:
            return p
        if ev == "U":
            # everything reported on the last level that has anything
            if not self.rep:
                p.append("undo without changes")
                return p
            l = self.rep[-1][0]
            last = []
            while self.rep and self.rep[-1][0] == l:
                last = self.rep.pop()[1] + last
            if nums != last:
                p.append("undo of %s, reported were %s" % (nums, last))
            return p
        if ev == "D":
            fb, r = nums
            if fb != 0 and v.value(fb) != "-":
                p.append("fallback is not free")
        if ev in "PCD" and undo:
            # nothing that was reported is undone silently
            for x in rep:
                if v.value(x) != "1":
                    p.append("%d is no longer true but was not undone" % x)
        if ev == "P":
            if not nums and not ok:
                p.append("no changes")
            pos = {x: i for i, x in enumerate(v.trail)}
            for x in nums:
                if x not in pos:
                    p.append("change %d is not on the trail" % x)
                if undo and x in rep:
                    p.append("change %d was reported before" % x)
                if self.watched is not None and x not in self.watched:
                    p.append("change %d is not watched" % x)
            if len({v.lv(x) for x in nums if x in pos}) > 1:
                p.append("changes of several levels")
            if not p and [pos[x] for x in nums] != sorted(pos[x] for x in nums):
                p.append("changes are not in the order of the trail")
            self.rep.append((v.level, list(nums)))
        if ev in "CD" and undo and self.watched is not None and not v.conflict:
            w = {x for x in self.watched if v.value(x) == "1"}
            if w != set(rep):
                p.append("watched literals %s are true, reported were %s" % (sorted(w), sorted(rep)))
        if ev == "C" and self.mode in "T" and self.watched is not None and not v.total:
            p.append("check before the assignment is total")
        return p


def protocol(ctx, k, log, watch, flags, static=True):
    """Judges a log; watch: per propagator the watched names, None if watches change later."""
    per = {}
    lits = {}
    mode = {}
    wat = {}  # (literal, thread or None)
    for line in log:
        n, ev = line[0], line[1]
        head, _, rest = line[2:].partition("|")
        if ev == "I":
            w = head.split()
            mode[n] = w[1]
            lits[n] = {"T": 1}
            for x in w[2:]:
                a, _, l = x.rpartition("=")
                lits[n][a] = int(l.split("/")[0])
            if n not in wat:
                wat[n] = set()
            th, _, rest = rest.partition("|")
            for i, x in enumerate(th.split()):
                y = x.split(":")
                lits[n]["&%d" % i] = int(y[0])
                for j, z in enumerate(y[1:]):
                    lits[n]["&%d.%d" % (i, j)] = int(z)
            for x in [x for x in per if x[0] == n]:
                if watch[int(n)] is not None and any(l > 0 for l, _ in per[x].rep) and "u" in flags and "p" in flags:
                    ctx.fail(k + ": not undone before the next search", "%s [%s]" % (per[x].rep, ctx.cur))
                # (the engine reports what holds on level 0 in each search)
                per[x].rep = [(l, y) for l, y in per[x].rep if l == 0 and OLD]
            v = View(rest)
            for q in v.problems():
                ctx.fail(k + ": assignment in init", "%s: %s [%s]" % (q, line, ctx.cur))
            continue
        if ev == "m":
            mode[n] = line[2]
            continue
        if ev == "u":
            continue
        if ev in "ir":
            v = View(rest)
            if ev == "i":
                for q in v.problems():
                    ctx.fail(k + ": assignment in init", "%s: %s [%s]" % (q, line, ctx.cur))
                w = head.split()
                if w[0] == "lit":
                    lits[n][w[1].split("=")[0]] = int(w[-1].split("=")[1])
                if w[0] in ("watch", "unwatch"):
                    l = lits[n][w[1].lstrip("-")] * (-1 if w[1][0] == "-" else 1)
                    for t in w[2:] or "01":
                        (wat[n].add if w[0] == "watch" else wat[n].discard)((l, t))
            continue
        ws = head.split()
        t, nums = ws[0], [int(x) for x in ws[1:]]
        if (n, t) not in per:
            per[n, t] = Judge(None, mode.get(n, "T"))
        per[n, t].mode = mode.get(n, "T")
        per[n, t].watched = {l for l, x in wat[n] if x == t} if watch[int(n)] is not None else None
        v = View(rest)
        for q in v.problems(ev == "U"):
            ctx.fail(k + ": assignment in " + ev, "%s: %s [%s]" % (q, line, ctx.cur))
        for q in per[n, t].step(ev, nums, v, "u" in flags and "p" in flags and watch[int(n)] is not None, False):
            ctx.fail(k + ": protocol in " + ev, "%s: %s [%s]" % (q, line, ctx.cur))
        ctx.transitions += 1


def run(it, args, hist, props, full=False):
    """hist: (command, ...) or "solve"; yields the log lines and the events of the searches."""
    out = []
    it.do("reset")
    it.ok("new", args)
    if full:
        it.ok("level", "f", "")
    for p in props:
        it.ok("prop", *p)
    for h in hist:
        if h[0] == "solve":
            r = it.do("solve", "c", h[1] if len(h) > 1 else "", "")
            if r.startswith("E:"):
                it.ctx.fail("%s: solve fails" % it.lang, "%s [%s]" % (r[:300], it.ctx.cur))
            out.append(r)
        else:
            it.ok(*h)
    log = it.do("proplog")
    return (log.split("\x01") if log else []), out


def compare(ctx, it, c, k, args, hist, props, watch, flags, choices=None):
    log, res = run(it, args, hist, props, "-t" in args)
    if choices is not None:
        # the same choices for the propagator on the C interface
        if hasattr(it.i, "settle"):
            it.i.settle()
        path = [x for x, _ in choices.path]
        c.i.raw("choices", ",".join(map(str, path)))
    clog, cres = run(c, args, hist, props)
    if choices is not None:
        cp = [int(x.split(":")[0]) for x in c.i.raw("path").split()]
        ctx.check(cp == path, k + ": another search than with the C interface", "%s %s" % (path, cp))
        if hasattr(it.i, "settle"):
            it.i.ch = None  # (path is complete)
    ctx.traces += 1
    ctx.state(tuple(clog))
    if log != clog:
        i = next((i for i, (x, y) in enumerate(zip(log, clog)) if x != y), min(len(log), len(clog)))
        ctx.fail(k + ": events or views differ from the C interface", "event %d: got %s, expected %s [%s]" % (i, (log[i:] or ["none"])[0], (clog[i:] or ["none"])[0], ctx.cur))
    else:
        protocol(ctx, k, log, watch, flags)
    return log, res


GS = [("add", "base", "", None), ("ground", "base"), ("solve",)]


def history(prog, kind):
    base = [("add", "base", "", prog), ("ground", "base"), ("solve",)]
    if kind == "1":
        return base
    if kind == "2":
        return base + [("solve",)]
    if kind == "g":
        return base + [("add", "g", "", "{z}. :-z,not a."), ("ground", "g"), ("solve",)]
    if kind == "e":
        return base + [("ext", "b", "f"), ("solve",)]
    if kind == "A":
        return base[:2] + [("solve", "+a"), ("solve", "-a")]
    raise KeyError(kind)


ATOMS = {"a": "a", "-a": "-a"}
WS = ["a", "-a", "b", "-b", "c", "-c"]


def watchsets(tier):
    for n in range(0, 4 if tier != "quick" else 3):
        yield from itertools.combinations(WS, n)
    if tier == "quick":
        yield ("a", "b", "c")
        yield ("-a", "-b", "-c")
    yield tuple(WS)


def has(prog, w):
    return all(x.lstrip("-") in prog for x in w)


def scenarios(tier, lang):
    out = []
    flagsets = ["ipuc", "ipucd", "ip", "ipu", "ic", "ipc", "id", "i", "iuc"] + (["ipuck", "ipk", "ipuk", "ick", "idk", "ik"] if lang == "python" else [])  # (k: a class of its own)
    for p in PROGS:
        for w in watchsets(tier):
            for mode in "TFBN":
                init = ["watch " + x for x in w] + ([] if mode == "T" else ["cmode " + mode])
                for h in ("1",) if mode in "BN" or p == PROGS[-1] else ("1", "g"):
                    out.append((p, h, [(";".join(init), "", "ipucd" if mode == "T" else "ipuc")], [set(w)], "0"))
    for p in PROGS:
        for fl in flagsets:
            for h in ("2", "A") + (("e",) if "external" in p else ()):
                out.append((p, h, [("watch a;watch -b;watch T;cmode B", "", fl)], [{"a", "-b", "T"}], "0"))
        # several propagators
        out.append((p, "2", [("watch a;watch b", "", "ipuc"), ("watch -a;watch b;cmode F", "", "ipuc")], [{"a", "b"}, {"-a", "b"}], "0"))
        out.append((p, "2", [("watch a;watch b 0;cmode B", "", "ipucd"), ("watch b", "", "ipucd"), ("", "", "ic")], [{"a", "b"}, {"b"}, set()], "0"))
        # watches that change
        for r in ["c1:.:watch a", "p:a:watch b", "p:b:unwatch b", "c:.:has a;c:.:has -a;c:.:unwatch a;c:.:has a", "p1:.:unwatch a;p1:.:watch -a;c:.:has a", "c1:.:lit x;c:.:watch a", "c1:.:lit x;c1:.:watch x"]:
            out.append((p, "2", [("watch a;watch b;cmode B", r, "ipuc")], [None], "0"))
            out.append((p, "1", [("watch -a;watch b;cmode T", r, "ipucd")], [None], "0"))
        if lang != "lua":
            out.append((p, "2", [("watch a;watch b;unwatch a", "", "ipuc")], [{"b"}], "0"))
            out.append((p, "2", [("watch a;watch b;unwatch b 0;freeze c;freeze -c", "", "ipuc")], [{"a"}], "0"))
            if not OLD:
                for um, m in itertools.product("DA", "TFBN"):
                    out.append((p, "2", [("watch a;watch -b;cmode %s;umode %s" % (m, um), "", "ipuc")], [None if um == "A" else {"a", "-b"}], "0"))
    for w in ("&0", "-&0", "&1", "&0.0", "-&0.0", "&1.0;watch &0", "a;watch -c"):
        out.append((THEORY, "1", [("watch %s;cmode B" % w, "", "ipuc")], [set()], "0"))
    return out


def logs(ctx, lang, i, n):
    it = sl.Interp(ctx, lang)
    c = sl.Interp(ctx, "c")
    lib = "sys" if OLD else "eng"
    k = "%s %s" % (lang, lib)
    for j, (p, h, props, watch, args) in enumerate(scenarios(ctx.tier, lang)):
        if j % n != i:
            continue
        if "c" not in p.replace("external", "") and re.search(r"(watch|freeze) -?c\b", str(props)):
            continue
        ctx.journal("%s %r %s %s" % (k, p, h, props))
        ctx.execs += 1
        ctx.nontrivial += 1
        compare(ctx, it, c, k, args, history(p, h), props, watch, props[0][2])
    it.i.close()
    c.i.close()


SIZES = list(range(1, 11)) + [16, 17, 32, 33, 64, 65]


def wide(ctx, lang):
    """Every number of watches, changes, literals of clauses and of constraints."""
    it = sl.Interp(ctx, lang)
    c = sl.Interp(ctx, "c")
    k = "%s wide %s" % (lang, "sys" if OLD else "eng")
    for n in SIZES:
        X = ["x%d" % i for i in range(n)]
        p = "{a;%s}. %s" % (";".join(X), " ".join(":-a,not %s." % x for x in X))
        W = ";".join("watch " + x for x in X)
        for init, rules, watch in (
            (W + ";watch a;cmode B", "", set(X) | {"a"}),
            ("watch a;" + W.replace("x", "-x") + ";clause a,%s;prop" % ",".join(X), "", {"-" + x for x in X} | {"a"}),
            (W + ";clause a", "c1:.:clause -a,%s;c1:.:nogood %s t;c1:.:lit y;c1:.:clause y,%s l" % (",".join("-" + x for x in X), ",".join(X), ",".join("-" + x for x in X)), set(X)),
            ("lit y;wc y %s %d;" % (",".join("%s=%d" % (x, i + 1) for i, x in enumerate(X)), n) + W + ";cmode F", "p1:.:unwatch x0;p1:.:watch -x0", None),
        ):
            ctx.journal("%s %d %s" % (k, n, init[:20]))
            ctx.execs += 1
            ctx.nontrivial += 1
            compare(ctx, it, c, k, "1", history(p, "1"), [(init, rules, "ipucd")], [watch], "ipucd")
    it.i.close()
    c.i.close()


def orders(ctx, lang, i, n, threads=False):
    """The same under all choices of the engine."""
    it = sl.Interp(ctx, lang)
    c = sl.Interp(ctx, "c")
    k = "%s all orders" % lang
    sc = []
    if threads:
        for p in ("{a}.", "{a}. :-a."):
            sc.append((p, "1", [("watch a;watch -a 1;cmode B", "", "ipucd")], [None], "0 -t 2"))
            sc.append((p, "1", [("watch a;watch -a", "", "ipucd")], [{"a", "-a"}], "0 -t 2"))
            sc.append((p, "1", [("watch a", "c1:.:clause -a", "ipucd")], [{"a"}], "0 -t 2"))
            sc.append((p, "1", [("watch a 0;watch -a 0", "", "ipuc")], [None], "0 -t 2"))
            lang == "lua" or sc.append((p, "1", [("watch a;watch -a;unwatch a 0;unwatch -a 0", "", "ipuc")], [None], "0 -t 2"))
            lang == "lua" or sc.append((p, "1", [("watch a;watch -a;unwatch a 1;unwatch -a", "", "ipuc")], [None], "0 -t 2"))
    else:
        for p in PROGS[: 4 if ctx.tier == "quick" else 8]:
            for w in [("a",), ("a", "-b"), ("-a", "c"), tuple(WS)] if ctx.tier == "quick" else list(watchsets("thorough")):
                if not has(p, w):
                    continue
                for m in "TB" if ctx.tier == "quick" else "TFBN":
                    sc.append((p, "1", [(";".join("watch " + x for x in w) + ";cmode " + m, "", "ipucd")], [set(w)], "0"))
            sc.append((p, "1", [("watch a;cmode B", "p:a:watch b;c1:.:watch -b", "ipucd")], [None], "0"))
    for j, (p, h, props, watch, args) in enumerate(sc):
        if j % n != i:
            continue

        def body(ch):
            ctx.journal("%s %r %s %s choices=%s" % (k, p, h, props, ch.prefix))
            ctx.nontrivial += 1
            log, res = compare(ctx, it, c, k, args, history(p, h), props, watch, props[0][2], ch)
            if threads and "clause" not in props[0][1] and "cmode" not in props[0][0]:
                # a model is found by the thread whose total assignment was checked
                tot = [x[2 : x.index("|")] for y, x in zip([""] + log, log) if x[1] == "C" and x.split("|")[1].split()[2] == "01" and x != y]
                ms = [e[1:].split("|") for r in res if not r.startswith("E:") for e in r.split("\x01") if e[0] == "M"]
                got = [m[5].split()[1] for m in ms]
                ctx.eq(k + ": thread of a model", got, tot, p)

        for x in ("thread", "async"):
            it.do("bound", x, "2" if ctx.tier == "quick" else "3")
            c.do("bound", x, "2" if ctx.tier == "quick" else "3")
        it.explore("%s %s" % (p, props), body)
    it.i.close()
    c.i.close()


def seqs(ctx, lib):
    """The sequences Python returns for the trail and the assignment."""
    import clingo

    class P:
        def __init__(self):
            self.seen = set()

        def look(self, a):
            t = list(a.trail)
            if (tuple(t), len(a)) in self.seen:
                return
            self.seen.add((tuple(t), len(a)))
            ctx.state((tuple(t), len(a)))
            sl.seqcheck(ctx, "python: trail", a.trail, t, nested=len(t) < 5, absent=[99, -99])
            ref = [a[i] for i in range(len(a))]
            ctx.check(all(a.has_literal(x) and x > 0 for x in ref), "python: literals of the assignment", ref)
            sl.seqcheck(ctx, "python: assignment", a, ref, nested=len(ref) < 5, absent=[99, -99])

        def init(self, init):
            for x in init.symbolic_atoms:
                init.add_watch(init.solver_literal(x.literal))
            init.check_mode = clingo.PropagatorCheckMode.Both
            self.look(init.assignment)

        def propagate(self, ctl, changes):
            self.look(ctl.assignment)

        def undo(self, thread, a, changes):
            self.look(a)

        def check(self, ctl):
            self.look(ctl.assignment)

        def decide(self, thread, a, fallback):
            self.look(a)
            return fallback

    for p in ("", "{a}.", "{a;b}.", "{a;b;c}. :-a,b."):
        ctx.journal("sequences in %r" % p)
        ctl = clingo.Control(["0"])
        q = P()
        ctl.register_propagator(q)
        ctl.add("base", [], p)
        ctl.ground([("base", [])])
        ctl.solve()
        ctx.check(q.seen, "python: no event", p)


def tasks(tier):
    out = [Py("seqs", x, lib=x, name="seqs-" + x) for x in ("sys", "eng")]
    for lib in ("sys", "eng"):
        for l, n in (("python", 4), ("c++", 2), ("lua", 2)):
            out.append(Py("wide", l, lib=lib, name="wide-%s-%s" % (l, lib)))
            out += [Py("logs", l, i, n, lib=lib, name="logs-%s-%s-%d" % (l, lib, i)) for i in range(n)]
    for l in ("python", "c++", "lua"):
        out += [Py("orders", l, i, 4, lib="eng", name="orders-%s-%d" % (l, i)) for i in range(4)]
        out += [Py("orders", l, i, 2, True, lib="eng", name="threads-%s-%d" % (l, i)) for i in range(2)]
    return out
