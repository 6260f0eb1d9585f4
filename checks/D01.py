"""D01: configuration entries read back what was set and describe themselves."""
import itertools

import checks.solvelib as sl
from vplib import Py

PID = "D01"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all setting histories over the configuration tree, in lockstep with the C interface and a model of the tree"
NOTE = "Every entry of the tree by every access path (dotted, element of an array, array itself), every entry set to every value of an alphabet with valid, invalid and boundary values, and all histories of two and three settings, searches and accesses over selected entries, in Python, C++ and Lua; the whole tree with keys, kinds, lengths, values and descriptions is compared after every operation."
RULE = ""
BUILD = ["sys/py/_clingo.so", "sys/lua/clingo.so", "sys/drv/icpp", "sys/drv/capi", "eng/py/_clingo.so", "eng/lua/clingo.so", "eng/drv/icpp", "eng/drv/capi"]
ASSUMPTIONS = ["which values an entry accepts is up to the solver, asked through the C interface"]

VALUES = ["0", "1", "2", "-1", "3,compete", "auto", "yes", "no", "false", "umax", "brave", "ignore", "10,20", "x,100", "usc", "vsids,80", "tweety", "8,split", "foo", "", " 1", "1x", "99999999999999999999", "1.5", "bb", "none", "asp", "project", "all", "record", "=1", "á"]
ARGS = ["0", "", "-t 2", "-t 3,split --configuration=many", "--configuration=tweety --opt-mode=optN 7", "--stats=2 --enum-mode=brave --heuristic=Domain --rand-freq=0.5", "--models=3 --project --opt-strategy=usc --sat-prepro=2"]


def dump(it, lang, desc="0"):
    r = it.do("cdump", "", desc)
    return [x.replace(" #0", " #-") if " #0" in x else x for x in r.split("\x01")] if lang == "lua" else r.split("\x01")


def diff(a, b):
    if len(a) != len(b):
        return "%d and %d entries" % (len(a), len(b))
    return [(x, y) for x, y in zip(a, b) if x != y][:4]


class Lock:
    """A binding and the C interface in lockstep."""

    def __init__(self, ctx, lang, lib):
        self.ctx, self.lang, self.k = ctx, lang, "%s %s" % (lang, lib)
        self.it = sl.Interp(ctx, lang)
        self.c = sl.Interp(ctx, "c")

    def begin(self, args, what):
        self.ctx.journal("%s %s" % (self.k, what))
        self.ctx.execs += 1
        self.ctx.nontrivial += 1
        for i in (self.it, self.c):
            i.do("reset")
            i.ok("new", args)

    def same(self, what, desc="0"):
        a, b = dump(self.it, self.lang, desc), dump(self.c, self.lang, desc)
        self.ctx.check(a == b, self.k + ": the tree", "%s: %s" % (what, diff(a, b)))
        self.ctx.transitions += len(b)
        self.ctx.state((what, tuple(b)) if len(what) < 60 else tuple(b))
        return b

    def both(self, *cmd):
        a, b = self.it.do(*cmd), self.c.do(*cmd)
        self.ctx.eq("%s: outcome of %s" % (self.k, cmd[0]), a.startswith("E:"), b.startswith("E:"), "%s: %s, C: %s" % (cmd, a, b))
        return b

    def close(self):
        self.it.i.close()
        self.c.i.close()


def leaves(d):
    out = []
    for x in d:
        p, _, v = x.partition(" ")
        if v == "-" or v.startswith("="):
            out.append(p.lstrip("."))
    return out


def trees(ctx, lang, lib):
    """All entries by all paths."""
    L = Lock(ctx, lang, lib)
    for a in ARGS if lib == "sys" else ARGS[:3]:
        L.begin(a, "tree of " + a)
        d = L.same("tree of %r" % a, "1")
        nodes = [x.partition(" ")[0].lstrip(".") for x in d if " #" in x]
        for p in leaves(d):
            ctx.eq(L.k + ": value", L.it.do("cget", p), L.c.do("cget", p), p)
            ctx.eq(L.k + ": description", L.it.do("cdesc", p), L.c.do("cdesc", p), p)
            # what is not there
            r = L.it.do("cget", p + ".x")
            ctx.check(r.startswith("E:") or lang == "lua" and r == "-", L.k + ": entries of values", "%s.x: %s" % (p, r))
        for p in nodes:
            if p:
                ctx.eq(L.k + ": node", L.it.do("cget", p), "node", p)
                ctx.eq(L.k + ": description", L.it.do("cdesc", p) if not p[-1].isdigit() else "", L.c.do("cdesc", p) if not p[-1].isdigit() else "", p)
            ctx.eq(L.k + ": keys", L.it.do("ckeys", p), L.c.do("ckeys", p), p)
            n = L.c.do("clen", p)
            ctx.eq(L.k + ": length", L.it.do("clen", p), n[:-1] if lang == "lua" else n, p)
            if n[-1] == "0":
                n = "00"
            for j in (int(n[:-1]), int(n[:-1]) + 1, 1000):
                if lang != "c++":  # (out of range positions are errors of the library)
                    r = L.it.do("cget", (p + "." if p else "") + str(j))
                    ctx.check(r.startswith("E:") or lang == "lua" and r == "-", L.k + ": positions out of range", "%s.%d: %s" % (p, j, r))
            if lang == "python":
                for j in ("-1", "-2"):
                    r = L.it.do("cget", (p + "." if p else "") + j)
                    ctx.check(r.startswith("E:IndexError"), L.k + ": negative positions", "%s.%s: %s" % (p, j, r))
            for u in ("zz", "modelz", "_x", "Models", "solve.zz"):
                q = (p + "." if p else "") + u
                for cmd in (("cget", q), ("cdesc", q), ("cset", q, "1")):
                    r = L.it.do(*cmd)
                    ctx.check(r.startswith("E:") or lang == "lua" and cmd[0] == "cget" and r == "-", L.k + ": unknown entries", "%s: %s" % (cmd, r))
            r = L.it.do("cset", p, "1") if p and not p[-1].isdigit() else "E:"
            ctx.check(r.startswith("E:"), L.k + ": setting a node", "%s: %s" % (p, r))
        L.same("tree of %r after reading" % a, "1")
    L.close()


def values(ctx, lang, lib, i, n):
    """Every entry set to every value."""
    L = Lock(ctx, lang, lib)
    for args in ("0", "-t 2") if lib == "sys" else ("0",):
        L.begin(args, "values")
        ls = leaves(L.same("initially"))
        for p in sl.chunks(ls, i, n):
            L.begin(args, "values of " + p)
            old = L.same("initially")
            for v in VALUES + ["<same>"]:
                if v == "<same>":
                    v = L.c.do("cget", p)
                    if v[0] != "=":
                        continue
                    v = v[1:]
                if p == "configuration" and v == "" or p.endswith("parallel_mode") and v == "0":
                    continue
                ctx.journal("%s set %s to %r" % (L.k, p, v))
                ctx.execs += 1
                r = L.both("cset", p, v)
                new = L.same("set %s to %r" % (p, v))
                # an invalid value changes nothing; a valid one changes this entry alone
                d = [x.partition(" ")[0] for x, y in zip(new, old) if x != y] if len(new) == len(old) else None
                if r.startswith("E:") and lib == "eng":
                    ctx.eq(L.k + ": rejected value has an effect", d, [], "%s=%r" % (p, v))
                elif d is not None and lib == "eng" and not p.endswith("configuration") and not p.startswith("solver"):
                    ctx.check(set(d) <= {"." + p}, L.k + ": other entries change", "%s=%r: %s" % (p, v, d))
                old = new
    L.close()


OPS = [
    ("cset", "solve.models", "1"), ("cset", "solve.models", "0"), ("cset", "solve.models", "x"), ("cset", "solve.enum_mode", "cautious"), ("cset", "solve.enum_mode", "brave"), ("cset", "solve.enum_mode", "auto"), ("cset", "solve.opt_mode", "optN"), ("cset", "solve.opt_mode", "ignore"), ("cset", "solve.project", "show"),
    ("cset", "solver.heuristic", "berkmin"), ("cset", "solver.0.heuristic", "vmtf"), ("cset", "solver.0.seed", "-3"), ("cset", "configuration", "frumpy"), ("cset", "stats", "2"), ("cset", "asp.eq", "0"), ("cset", "tester.solver.seed", "5"), ("cset", "solve.parallel_mode", "3"), ("cset", "solve.zz", "3"), ("cget", "solve.models"), ("clen", "solver"), ("solve",),
]
PROG = "{a;b}. #minimize{1@2:a;-1,b:b}. c:-not b. #show a/0."


def histories(ctx, lang, lib, i, n):
    """All histories of settings and searches; settings take effect in the next search."""
    L = Lock(ctx, lang, lib)
    ops = OPS if lib == "sys" else [o for o in OPS if not (len(o) > 1 and o[1].startswith(("tester", "solver.", "asp")) or o[0] == "cset" and o[1] in ("configuration", "solve.parallel_mode"))]
    dep = 3 if ctx.tier == "thorough" else 2
    for hs in sl.chunks(list(itertools.product(ops, repeat=dep)), i, n):
        L.begin("0", "history %s" % (hs,))
        for x in (L.it, L.c):
            x.ok("add", "base", "", PROG)
            x.ok("ground", "base")
        for o in hs + (("solve",),):
            if o[0] == "solve":
                ev = L.it.solve("c")
                m = L.c.do("solve")
                if ev is not None:
                    ctx.eq(L.k + ": number of models", str(len(sl.models(ev))), m, str(hs))
            else:
                L.both(*o)
            L.same("after %s" % (o,))
        ctx.traces += 1
    L.close()


def tasks(tier):
    out = []
    n = {"python": 6, "c++": 3, "lua": 3}
    for l in ("python", "c++", "lua"):
        out.append(Py("trees", l, "sys", lib="sys", name="trees-" + l))
        out.append(Py("trees", l, "eng", lib="eng", name="trees-eng-" + l))
        out.append(Py("values", l, "eng", 0, 1, lib="eng", name="values-eng-" + l))
        out += [Py("values", l, "sys", i, n[l], lib="sys", name="values-%s-%d" % (l, i)) for i in range(n[l])]
        m = 6 if tier == "thorough" else 2
        out += [Py("histories", l, "sys", i, m, lib="sys", name="histories-%s-%d" % (l, i)) for i in range(m)]
        out += [Py("histories", l, "eng", i, m, lib="eng", name="histories-eng-%s-%d" % (l, i)) for i in range(m)]
    return out
