"""D02: statistics trees return exactly what was stored."""
import itertools
import re

import checks.solvelib as sl
from vplib import Py

PID = "D02"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all pairs of statistics updates in consecutive searches against a model of the merged tree; element-wise comparison of solver statistics with the C interface"
NOTE = "All trees of the bound (values, functions of the old value, arrays and maps up to depth 3, up to two elements) stored under the step and the accumulated statistics, all pairs of trees in consecutive searches, by update, by element and by appending, in Python and C++ and read back in all three languages; solver statistics of programs, options and histories in all three languages."
RULE = ""
BUILD = ["sys/py/_clingo.so", "sys/lua/clingo.so", "sys/drv/icpp", "sys/drv/capi", "eng/py/_clingo.so", "eng/lua/clingo.so", "eng/drv/icpp", "eng/drv/capi"]
ASSUMPTIONS = ["an update that changes the kind of an entry is outside of the alphabet (the kinds of entries are fixed)", "run times are left out of comparisons"]


class F:
    """A function of the old value."""

    def __init__(self, n):
        self.n = n


def ser(t):
    if isinstance(t, dict):
        return "{" + ",".join("%s:%s" % (k, ser(v)) for k, v in t.items()) + "}"
    if isinstance(t, list):
        return "[" + ",".join(map(ser, t)) + "]"
    return "+%g" % t.n if isinstance(t, F) else "%g" % t


def show(t):
    if isinstance(t, dict):
        return "{" + ",".join(sorted("%s:%s" % (k, show(v)) for k, v in t.items())) + "}"
    if isinstance(t, list):
        return "[" + ",".join(map(show, t)) + "]"
    return "%g" % t


def kind(t):
    return "m" if isinstance(t, dict) else "a" if isinstance(t, list) else "v"


def merge(old, t):
    """None: kinds clash."""
    if isinstance(t, dict):
        r = dict(old) if old is not None else {}
        for k, v in t.items():
            if k in r and kind(r[k]) != kind(v):
                raise ValueError
            r[k] = merge(r.get(k), v)
        return r
    if isinstance(t, list):
        r = list(old) if old is not None else []
        for i, v in enumerate(t):
            if i < len(r) and kind(r[i]) != kind(v):
                raise ValueError
            x = merge(r[i] if i < len(r) else None, v)
            r[i : i + 1] = [x]
        return r
    if isinstance(t, F):
        return t.n if old is None else old + t.n
    return t


def trees():
    v = [1, -2.5, F(2)]
    l1 = [[], {}] + [[x] for x in v] + [[1, F(3)], [F(1), 1e100]] + [{"a": x} for x in v] + [{"a": 1, "b": F(5)}]
    l2 = [[[1], [F(2)]], [[], [1, 2]], [{"a": 1}], {"a": [1]}, {"b": {"c": F(1)}}, {"a": [], "b": {}}, [{"a": F(1)}, {"b": 2}], [0, [1]], {"c d": 1, "": 2}]
    out = [{}]
    for x in v + l1 + l2:
        out.append({"k": x})
    for x, y in itertools.product((F(2), [1, F(1)], {"a": 1}, [[1]]), (1, [F(1)], {"a": F(1)})):
        out.append({"k": x, "m": y})
    return out


def start(ctx, it, what, args="0"):
    ctx.journal("%s %s" % (it.lang, what))
    ctx.execs += 1
    ctx.nontrivial += 1
    it.do("reset")
    it.ok("new", args)
    it.ok("add", "base", "", "{a}.")
    it.ok("ground", "base")


def user(ctx, lang, lib, i, n):
    it = sl.Interp(ctx, lang)
    k = "%s %s" % (lang, lib)
    T = trees()
    modes = ["c", "y"] if ctx.tier != "thorough" else ["c", "y", "a", "yA"]
    # one and two searches, step and accumulated trees different
    cases = [(a, b) for a in T for b in T]
    for j, (a, b) in enumerate(cases):
        if j % n != i:
            continue
        for how in ("", "*", "!") if lang == "python" or ctx.tier == "thorough" or j % 3 == 0 else ("",):
            if how == "!" and not all(isinstance(v, list) for t in (a, b) for v in t.values()):
                continue
            start(ctx, it, "user statistics %s %s %r" % (ser(a), ser(b), how))
            S, A = {}, {}
            logs = []
            try:
                for x, y in ((a, b), (b, a), (a, a)):
                    if how == "!":
                        for m, t in ((S, x), (A, y)):
                            for key, v in t.items():
                                m.setdefault(key, [])
                                m[key] = m[key] + [merge(None, e) for e in v]
                    else:
                        S, A = merge(S, x), merge(A, y)
                    logs.append((x, y, show(S), show(A)))
            except ValueError:
                pass
            for x, y, s, t in logs:
                it.do("ustats", how + ser(x), how + ser(y))
                if it.solve(modes[j % len(modes)]) is None:
                    break
                ctx.eq(k + ": tree seen in the handler", it.do("ulog"), s + "/" + t, "storing %s and %s by %r" % (ser(x), ser(y), how))
                # (empty trees do not show)
                for name, w in (("user_step", s), ("user_accu", t)):
                    g = it.do("stats", name)
                    ctx.check(g == w or w == "{}" and g.startswith("E:"), k + ": tree found in the statistics", "%s: got %s, expected %s" % (name, g, w))
                    ctx.transitions += 1
                ctx.state((s, t))
            # a search without a handler leaves them alone
            if logs:
                it.do("ustats")
                it.solve("p")
                g = it.do("stats", "user_accu")
                ctx.check(g == logs[-1][3] or logs[-1][3] == "{}", k + ": tree after another search", "got %s, expected %s" % (g, logs[-1][3]))
    it.i.close()


def wide(ctx, lang, lib):
    """Arrays, maps and cost vectors of every size."""
    it = sl.Interp(ctx, lang)
    c = sl.Interp(ctx, "c")
    k = "%s %s: wide" % (lang, lib)
    N = list(range(0, 36)) + [63, 64, 65, 127, 129, 200] + ([] if ctx.tier == "quick" else list(range(36, 63)) + [255, 256, 257, 1000])

    def deep(n, leaf, f):
        for j in range(n):
            leaf = f(leaf, j)
        return leaf

    if lang != "lua":
        cases = []
        for n in N:
            cases.append(({"k": [j for j in range(n)]}, {"k": {"x%d" % j: j for j in range(n)}}))
            cases.append(({"k": [F(j) for j in range(n)]}, {"k%d" % j: F(-j) for j in range(n)}))
            cases.append(({"k": [[j] for j in range(n)]}, {"k": [{"a": j} for j in range(n)]}))
            if n and n < 9:
                cases.append(({"k": deep(n, 1, lambda x, j: [x])}, {"k": deep(n, 1, lambda x, j: {"m%d" % j: x})}))
        M = (0, 1, 2, 3, 4, 5, 6, 7, 8)
        for n, m in itertools.product(M, M):
            cases.append(({"k": [F(j + 1) for j in range(n)]}, {"k": [F(j + 10) for j in range(m)]}))
        for v in (1e-300, 1.7e308, -1.7e308, 0, 4.5e15):
            cases.append(({"k": v, "l": [v, v]}, {"k": {"v": v}}))
        for a, b in cases:
            for how in ("", "*"):
                start(ctx, it, "%s %s by %r" % (ser(a)[:200], ser(b)[:200], how))
                S, A = {}, {}
                try:
                    for x, y in ((a, b), (b, a), (a, a)):
                        S, A = merge(S, x), merge(A, y)
                        it.do("ustats", how + ser(x), how + ser(y))
                        if it.solve("c") is None:
                            break
                        ctx.eq(k + ": tree seen in the handler", it.do("ulog"), show(S) + "/" + show(A), "storing %s and %s by %r" % (ser(x)[:200], ser(y)[:200], how))
                        ctx.transitions += 1
                except ValueError:
                    pass
                ctx.state(show(S) + show(A))
    for n in N:
        p = "{a;b}. :-not b. " + " ".join("#minimize{%d@%d,1:not a;%d@%d,2:b}." % (j + 1, j, 7 * j * j - 50, j) for j in range(n))
        ctx.journal("%s costs %d" % (k, n))
        ctx.execs += 1
        for x in (it, c):
            x.do("reset")
            if x is not it or lang != "lua":
                x.do("ustats")
            x.ok("new", "0")
            x.ok("add", "base", "", p)
            x.ok("ground", "base")
            x.do("solve", "c", "", "")
        ctx.eq(k + ": solver statistics", norm(it.do("stats"), lang), norm(c.do("stats"), lang), "%d priorities" % n)
        ctx.eq(k + ": costs", norm(it.do("stats", "summary.costs"), lang), norm(c.do("stats", "summary.costs"), lang), "%d priorities" % n)
        ctx.transitions += 1
    ctx.nontrivial += 1
    it.i.close()
    c.i.close()


def strip(s):
    return re.sub(r"(times:|time_?\w*:|cpu:|solve:|sat:|unsat:|total:)(\{[^{}]*\}|[-+0-9.e]+)", r"\1", s)


PROGS = ["{a}.", "a. b:-a.", "{a;b}. #minimize{1@2:a;1,b:b}. :~a. [1@3]", ":-not a.", "a;b. {c}. d:-2{a;b;c}.", "a:-not b. b:-not a. c:-a. c:-b. :-c,d. {d}. #show c/0.", "1{p(1..5)}1. :-p(X),X>4.", "{a;b}. :-not a. :-not b. #minimize{3@2:a;5@1:b;-1@-4:a;7@9:a}."]
HIST = ["", "s", "ss", "sgs"]


def solver(ctx, lang, lib):
    """Solver statistics as converted by the binding and element by element."""
    c = sl.Interp(ctx, "c")
    it = sl.Interp(ctx, lang)
    k = "%s %s" % (lang, lib)
    for p, h, a in itertools.product(PROGS, HIST, ["0", "0 --stats=2", "1 --stats=1", "0 --opt-mode=ignore --stats=2 --seed=3"]):
        ctx.journal("%s statistics of %s %s %s" % (k, p, h, a))
        ctx.execs += 1
        ctx.nontrivial += 1
        for x in (it, c):
            x.do("reset")
            x.ok("new", a)
            x.ok("add", "base", "", p)
            x.ok("add", "g", "", "{z}. y:-z.")
            x.ok("ground", "base")
            if lang == "lua" and "s" in h:
                x.do("stats")  # (as far as there are any)
            for o in h:
                x.do("solve", "c", "", "") if o == "s" else x.ok("ground", "g")
                if lang == "lua" or o == "s":
                    x.do("stats")
        g, w = it.do("stats"), c.do("stats")
        if lib == "eng" and "s" not in h:
            continue  # (nothing there)
        if w.startswith("E:"):
            ctx.check(g.startswith("E:"), k + ": statistics before solving", "%s; C: %s" % (g[:200], w))
            continue
        g, w = norm(g, lang), norm(w, lang)
        ctx.eq(k + ": solver statistics", g, w, "%s %s %s" % (p, h, a))
        ctx.state(w)
        # by path
        for path in ("summary.models", "summary.models.enumerated", "problem.lp.atoms", "summary.costs", "summary.zz", "zz", "solving.solvers", "summary.costs.0"):
            if lang == "lua" and path.endswith("0"):
                continue
            x, y = it.do("stats", path), c.do("stats", path)
            if y.startswith("E:"):
                ctx.check(x.startswith("E:") or x == "-", k + ": missing statistics", "%s: %s" % (path, x))
            else:
                ctx.eq(k + ": statistics by path", norm(x, lang), norm(y, lang), path)
            ctx.transitions += 1
    it.i.close()
    c.i.close()


def norm(s, lang):
    s = strip(s)
    return s.replace("[]", "{}") if lang == "lua" else s



def tasks(tier):
    out = []
    for lib in ("sys", "eng"):
        for l, n in (("python", 4), ("c++", 2)):
            out += [Py("user", l, lib, i, n, lib=lib, name="user-%s-%s-%d" % (l, lib, i)) for i in range(n)]
        for l in ("python", "c++", "lua"):
            out.append(Py("solver", l, lib, lib=lib, name="solver-%s-%s" % (l, lib)))
            out.append(Py("wide", l, lib, lib=lib, name="wide-%s-%s" % (l, lib)))
    return out
