"""C03: multi-shot histories behave like the program they describe."""
import itertools

import asp
import checks.solvelib as sl
from vplib import Py

PID = "C03"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all operation histories up to a depth, in lockstep with a reference model of the accumulated program"
NOTE = "All histories of up to 3 (thorough 4) operations over 21 operations (grounding parts with arguments, assigning and releasing externals by symbol and literal, adding text, cleaning up, solving) in Python, C++ and Lua; after each history the models and the external state are compared with the reference."
RULE = ""
BUILD = ["sys/py/_clingo.so", "sys/lua/clingo.so", "sys/drv/icpp", "eng/py/_clingo.so", "eng/lua/clingo.so", "eng/drv/icpp"]
ASSUMPTIONS = ["the reference semantics in lib/asp.py", "grounding a part twice with the same arguments and defining released atoms is outside of the alphabet (the behaviour is undefined)"]

TEXT = "{a}. #external e. [%s] x:-e."
PART = "#external q(k). r(k):-q(k). {s(k)}. :-s(k),r(k)."
PARTG = "#external q(1). r(1):-q(1). {s(1)}. :-s(1),r(1)."
DEF = "e:-a."
NEW = "{n}. y:-n,x."
OPS = (
    [("ground", p) for p in ("p(1)", "p(2)", "d", "p(1);p(2)")]
    + [("ext", "e", v) for v in "tfu"] + [("ext", "q(1)", v) for v in "tu"] + [("extl", "e", "t"), ("extn", "e", "t"), ("extn", "e", "f"), ("ext", "zz", "t"), ("ext", "a", "f"), ("extl", "q(2)", "t")]
    + [("rel", "e"), ("rell", "q(1)"), ("reln", "q(1)"), ("rel", "zz"), ("addn",), ("cleanup",), ("solve",)]
)


class Model:
    def __init__(self, init):
        self.st = list(asp.parse(TEXT % init))
        self.ext = {"e": init[0].replace("r", "u") if init != "free" else "u"}
        self.defined = set()
        self.released = set()
        self.parts = set()

    def enabled(self, op):
        if op[0] == "ground":
            ps = op[1].split(";")
            if any(p in self.parts for p in ps) or op[1] == "d" and "e" in self.released:
                return False
        if op[0] in ("extl", "extn", "rell", "reln"):
            return op[1] in self.ext
        if op[0] == "addn":
            return "n" not in self.parts
        return True

    def step(self, op):
        if op[0] == "ground":
            for p in op[1].split(";"):
                self.parts.add(p)
                if p == "d":
                    self.st += asp.parse(DEF)
                    self.defined.add("e")
                else:
                    self.st += asp.parse(PARTG.replace("1", p[2]))
                    self.ext["q(%s)" % p[2]] = "f"
        elif op[0] in ("ext", "extl", "extn"):
            v = op[2] if op[0] != "extn" else {"t": "f", "f": "t", "u": "u"}[op[2]]
            if op[1] in self.ext and op[1] not in self.defined and op[1] not in self.released:
                self.ext[op[1]] = v
        elif op[0] in ("rel", "rell", "reln"):
            if op[1] in self.ext and op[1] not in self.defined:
                self.released.add(op[1])
                self.ext[op[1]] = "f"
        elif op[0] == "addn":
            self.parts.add("n")
            self.st += asp.parse(NEW)

    def models(self):
        return sorted(asp.key(X) for X in asp.stable([s for s in self.st if s[0] != "ext"] + [("ext", a, v) for a, v in self.ext.items() if a not in self.defined]))

    def key(self):
        return (tuple(sorted(self.ext.items())), tuple(sorted(self.defined)), tuple(sorted(self.released)), tuple(sorted(self.parts)))


_m = {}


def models(m):
    k = (m.key(), len(m.st))
    if k not in _m:
        _m[k] = m.models()
    return _m[k]


def run(ctx, it, hist, init, mode):
    lang = it.lang
    ctx.journal("%s init=%s mode=%s history=%s" % (lang, init, mode, hist))
    ctx.execs += 1
    it.do("reset")
    it.ok("new", "0")
    it.ok("add", "base", "", TEXT % init)
    it.ok("add", "p", "k", PART)
    it.ok("add", "d", "", DEF)
    it.ok("ground", "base")
    m = Model(init)

    def solve(md):
        evs = it.solve(md)
        if evs:
            want = models(m)
            ctx.eq("%s: models after a history" % lang, sorted(sl.models(evs[:-1])), want, "history")
            ctx.eq("%s: result after a history" % lang, sl.final(evs)[:2], "10" if want else "01", "history")

    for op in hist:
        ctx.transitions += 1
        if op[0] == "solve":
            solve(mode)
        elif op[0] == "addn":
            it.ok("add", "n", "", NEW)
            it.ok("ground", "n")
        else:
            it.ok(*op)
        m.step(op)
        ctx.state((init, m.key()))
    solve("y")
    # the view on externals: external exactly if neither defined nor released
    for a in ("e", "q(1)"):
        if a in m.ext:
            r = it.do("lookup", a)
            f = r.split("/")
            if r == "-" or a in m.released or a in m.defined:
                continue
            ctx.eq("%s: external status" % lang, f[1][1], "1", a)
            ctx.eq("%s: fact status" % lang, f[1][0], "0", a)
    ctx.nontrivial += len(hist) > 1
    ctx.traces += 1


def histories(init, depth):
    def rec(pre, ms):
        yield pre
        if len(pre) == depth:
            return
        for op in OPS:
            m = Model(init)
            for o in pre:
                m.step(o)
            if m.enabled(op):
                if op == ("solve",) and pre and pre[-1] == op:
                    continue
                yield from rec(pre + [op], None)

    return rec([], None)


def explore(ctx, lang, i, n):
    it = sl.Interp(ctx, lang)
    depth = 4 if ctx.tier == "thorough" else 3
    for j, h in enumerate(histories("false", depth)):
        if j % n == i and (len(h) < 2 or h[-1] != ("solve",)):
            run(ctx, it, h, "false", "c" if lang == "lua" else ["c", "y", "a", "m"][j // n % 4])
    for init in ("true", "free"):
        for j, h in enumerate(histories(init, 2)):
            if j % n == i:
                run(ctx, it, h, init, "y")
    it.i.close()


PARTS = {"d": ("d", "", "pd."), "p(1)": ("p", "k", "pp(k)."), "p(f(2))": ("p", "k", "pp(k)."), 'q("s",#inf)': ("q", "k,l", "pq(l,k)."), "t(1,(),-3)": ("t", "a,b,c", "pt(c-1,a,b)."), "e": ("e", "", "pe.")}
WANT = {"d": "pd", "p(1)": "pp(1)", "p(f(2))": "pp(f(2))", 'q("s",#inf)': 'pq(#inf,"s")', "t(1,(),-3)": "pt(-4,1,())", "e": "pe"}


def parts(ctx, lang):
    """Every order of parts with different numbers of arguments in one call, and in every split into two calls."""
    it = sl.Interp(ctx, lang)
    for n in range(1, 5):
        for c in itertools.permutations(PARTS, n):
            for k in range(n if n < 4 else 1):
                ctx.journal("%s parts %s split %d" % (lang, c, k))
                ctx.execs += 1
                ctx.transitions += n
                it.do("reset")
                it.ok("new", "0")
                for x, a, t in dict.fromkeys(PARTS.values()):
                    it.ok("add", x, a, t)
                for y in ([c[:k]] if k else []) + [c[k:]]:
                    it.ok("ground", ";".join(y))
                evs = it.solve("c")
                if evs:
                    ctx.eq(lang + ": grounding several parts", list(sl.models(evs[:-1])), [",".join(sorted(WANT[x] for x in c))], c)
                ctx.state(frozenset(c))
    it.i.close()


def misc(ctx, lang):
    """Constants, flags and conflicts of the control object."""
    it = sl.Interp(ctx, lang)
    for args, text, want in (("-c n=5", "#const m=n+1. #const n=1.", {"n": "5", "m": "6", "k": "-"}), ("", '#const n="x". #const m=f(n,-2).', {"n": '"x"', "m": 'f("x",-2)', "x": "-"}), ("-c m=(1,) -c k=-3", "", {"m": "(1,)", "k": "-3", "n": "-"}), ("-c nM=4", "#const m_1=nM.", {"nM": "4", "nm": "-", "NM": "-", "m_1": "4", "m_": "-", "": "-"})):
        it.start(args, text)
        for c, w in want.items():
            ctx.journal("%s const %s of %r %s" % (lang, c, text, args))
            ctx.execs += 1
            ctx.eq(lang + ": get_const", it.do("const", c), w, c)
    it.start("0", "{a}. #external b.")
    for k in itertools.product("01", repeat=3):
        for c in k:
            ctx.execs += 1
            ctx.journal("%s flags %s" % (lang, k))
            ctx.eq(lang + ": enable_cleanup", it.do("encl", c), c, "set then get")
            ctx.eq(lang + ": enable_enumeration_assumption", it.do("enum", c), c, "set then get")
            for e in k:
                ctx.eq(lang + ": enable_cleanup", it.do("encl", e), e, "with enumeration assumption %s" % c)
                ctx.eq(lang + ": enable_enumeration_assumption", it.do("enum", c), c, "with cleanup %s" % e)
    for text, w in (("a.", "0"), ("a. :-a.", "1"), ("{a}. :-a.", "0"), (":-not b.", "1")):
        ctx.journal("%s conflict %s" % (lang, text))
        ctx.execs += 1
        it.start("0", text)
        it.solve("y")
        ctx.eq(lang + ": is_conflicting", it.do("conflict"), w, text)
    it.i.close()


SIZES = list(range(1, 18)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]


def wide(ctx, lang):
    """Every number of parts, parameters, arguments, constants and of rounds of adding and grounding."""
    it = sl.Interp(ctx, lang)

    def holds(want, what):
        ctx.execs += 1
        ctx.state(what)
        evs = it.solve("c")
        if evs:
            ctx.eq("%s: %s" % (lang, what[0]), [asp.split(x, ",") for x in sl.models(evs[:-1])], [sorted(want)], what)

    for n in SIZES:
        ctx.journal("%s wide %d" % (lang, n))
        ctx.nontrivial += 1
        # n parts with one argument in a single call
        it.do("reset")
        it.ok("new", "0")
        it.ok("add", "p", "k", "pp(k).")
        it.ok("add", "e", "", "pe.")
        it.ok("ground", ";".join(["p(%d)" % i for i in range(n)] + ["e"]))
        holds(["pp(%d)" % i for i in range(n)] + ["pe"], ("parts in one call", n))
        # a part with n parameters, grounded twice
        it.do("reset")
        it.ok("new", "0")
        ks = ["k%d" % i for i in range(n)]
        it.ok("add", "p", ",".join(ks), "pp(%s)." % ",".join(ks))
        args = [["%d" % i for i in range(n)], ["f(x,%d)" % (n - i) for i in range(n)]]
        for a in args:
            it.ok("ground", "p(%s)" % ",".join(a))
        holds(["pp(%s)" % ",".join(a) for a in args], ("parameters of a part", n))
        # n constants on the command line
        it.do("reset")
        it.ok("new", "0 " + " ".join("-c c%d=%d" % (i, n - i) for i in range(n)))
        it.ok("add", "base", "", "c(%s)." % ",".join("c%d" % i for i in range(n)))
        it.ok("ground", "base")
        holds(["c(%s)" % ",".join(str(n - i) for i in range(n))], ("arguments of the control", n))
        if n < 70:
            # n rounds of adding, grounding and solving
            it.do("reset")
            it.ok("new", "0")
            for i in range(n):
                it.ok("add", "s%d" % i, "", "s(%d)." % i)
                it.ok("ground", "s%d" % i)
                it.do("solve", "c", "", "")
            holds(["s(%d)" % i for i in range(n)], ("rounds", n))
        # names and texts of n bytes
        it.do("reset")
        it.ok("new", "0")
        x = "x" * n
        it.ok("add", x, "y" + x, "z%s(y%s). %%%s" % (x, x, x))
        it.ok("ground", "%s(w%s)" % (x, x))
        holds(["z%s(w%s)" % (x, x)], ("long names", n))
    it.i.close()


def edit(ctx, depth):
    """Projection sets and minimize constraints that are replaced and removed (Python only)."""
    import clingo

    S = clingo.parse_term
    sets = {"a": ["a"], "b,zz": ["b"], "c": ["c"], "a,c": ["a", "c"], "zz": []}
    ops = [("add", k) for k in sets] + [("replace", k) for k in sets if k != "zz"] + [("remove",), ("solve",)]
    for n in range(1, depth + 1):
        for h in itertools.product(ops, repeat=n):
            for lits in (False, True):
                ctx.journal("project %s %s" % (h, lits))
                ctx.execs += 1
                ctl = clingo.Control(["0", "--project=project"])
                ctl.add("base", [], "{a;b;c}. d:-a.")
                ctl.ground()
                cur = set()
                for op in h + (("solve",),):
                    ctx.transitions += 1
                    if op[0] == "solve":
                        if not cur:
                            continue
                        ms = []
                        ctl.solve(on_model=lambda m: ms.append(tuple(sorted(x for x in map(str, m.symbols(atoms=True)) if x in cur))))
                        ctx.eq("python: projected models", sorted(ms), sorted(t for k in range(len(cur) + 1) for t in itertools.combinations(sorted(cur), k)), "on %s after %s" % (sorted(cur), h))
                        ctx.state(tuple(sorted(cur)))
                        continue
                    if op[0] == "remove":
                        ctl.remove_project()
                        cur = set()
                        continue
                    at = [S(x) for x in op[1].split(",")]
                    if lits:
                        at = [ctl.symbolic_atoms[x].literal for x in at if ctl.symbolic_atoms[x] is not None]
                    if op[0] == "add":
                        ctl.add_project(at)
                        cur |= set(sets[op[1]])
                    else:
                        ctl.replace_project(at)
                        cur = set(sets[op[1]])
    mins = {"p": ("#minimize{1@2,a:a}.", [(1, 2, "a")]), "q": ("#maximize{3,b:b}.", [(-3, 0, "b")]), "r": ("#minimize{2@2,c:c;1,d:a}.", [(2, 2, "c"), (1, 0, "a")])}
    ops = [("ground", k) for k in mins] + [("remove",), ("solve",)]
    for n in range(1, depth + 2):
        for h in itertools.product(ops, repeat=n):
            if any(h.count(("ground", k)) > 1 for k in mins):
                continue
            ctx.journal("minimize %s" % (h,))
            ctx.execs += 1
            ctl = clingo.Control(["0"])
            ctl.add("base", [], "{a;b;c}. :-not a,not c.")
            for k, (t, _) in mins.items():
                ctl.add(k, [], t)
            ctl.ground()
            cur = []
            for op in h + (("solve",),):
                ctx.transitions += 1
                if op[0] == "ground":
                    ctl.ground([(op[1], [])])
                    cur = cur + mins[op[1]][1]
                elif op[0] == "remove":
                    ctl.remove_minimize()
                    cur = []
                else:
                    ms = []
                    ctl.solve(on_model=lambda m: ms.append((list(m.cost), list(m.priority))))
                    prio = sorted({p for _, p, _ in cur}, reverse=True)
                    cost = lambda X: [sum(w for w, q, x in cur if q == p and x in X) for p in prio]
                    all_ = [X for k in range(4) for X in itertools.combinations("abc", k) if "a" in X or "c" in X]
                    if not prio:
                        ctx.eq("python: models without minimize", ms, [([], [])] * 6, h)
                    else:
                        ctx.eq("python: optimum", ms[-1:], [(min(map(cost, all_)), prio)], "%s with %s" % (h, cur))
                    ctx.state(tuple(cur))


def tasks(tier):
    n = 6
    out = [Py("explore", l, i, n, lib="sys", name="explore-%s-%d" % (l, i)) for l in ("python", "c++", "lua") for i in range(n)]
    out += [Py("misc", l, lib="sys", name="misc-" + l) for l in ("python", "c++", "lua")]
    out += [Py("parts", l, lib="sys", name="parts-" + l) for l in ("python", "c++", "lua")]
    out += [Py("wide", l, lib=b, name="wide-%s-%s" % (l, b)) for l in ("python", "c++", "lua") for b in ("sys", "eng")]
    out.append(Py("edit", 3 if tier == "quick" else 4, lib="eng", name="edit"))
    if tier == "thorough":
        out += [Py("explore", l, i, n, lib="eng", name="explore-%s-eng-%d" % (l, i)) for l in ("python", "c++", "lua") for i in range(n)]
    return out
