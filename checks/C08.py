"""C08: an observer sees exactly the ground program."""
import itertools

import asp
import checks.C07 as c7
import checks.solvelib as sl
from vplib import Py

PID = "C08"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of programs and histories; the observed statements are replayed against the stable-model semantics"
NOTE = "All pairs from an alphabet of 45 program statements covering every statement kind on two libraries, all two-step and three-step histories over an alphabet of steps (grounding parts, external assignments, backend statements), with a full observer, each observer with one method left out, two observers, and replacing observers, and the exact events of all heuristic directives (6 types, 3 biases, 3 priorities, 4 conditions) and edges between all triples of 6 nodes, in Python, C++ and Lua."
RULE = ""
BUILD = ["sys/py/_clingo.so", "sys/lua/clingo.so", "sys/drv/icpp", "eng/py/_clingo.so", "eng/lua/clingo.so", "eng/drv/icpp"]
ASSUMPTIONS = ["the reference semantics in lib/asp.py"]

TEXT = [
    "{a}.", "{a;b}. c:-a,b.", "a:-not b. b:-not a.", "a;b:-not c.", "a.", ":-a.", ":-not a,b.", "{b}. a:-b. b:-a.", "1{a;b;c}1.", "c:-2{a;b;not d}.", "d:-#sum{2,a:a;-1,b:b;3:c}>=2.",
    "d:-#count{X:p(X)}>=2. {p(1..2)}.", "e:-#sum+{2:a;3:b}<4.", "x(M):-M=#max{1:a;2:b}, {a;b}.", "-a:-b. {a}.", "c:-a:b;not c.", "{c}:-a.", "not a:-b.", "a:-not not a.",
    "#external e. [true] c:-e.", "#external e. c:-not e.", "#external f(X):X=1..2. [free] c:-f(1).", "#minimize{1@2,a:a;3,b:b}.", "#minimize{-2,a:a;-1,b:not b}.", "#maximize{2@-1,x:c}. {c}.", "#minimize{1,x:a;1,x:b}.",
    ":~a. [3@1,t]", ":~a,b. [-1]", "#show. {a}.", "#show a/0.", "#show t:a.", "#show (1,\"x\"):not b.", "#show f(X):X=1..2. #show t:a,b.", "#project a. {a}.", "#project b/0. {b}.",
    "#edge (0,1):a. {a}.", "#edge (u,v):a. #edge (v,u):b. {a;b}.", "#heuristic a. [2@1,true] {a}.", "#heuristic b:not a. [-1,sign] {a;b}.", "#const n=2. r(n). r(X-1):-r(X),X>0,not s. {s}.",
    "b:-a. c:-b. {a}. #external c.", "{q(X,Y):X=1..2,Y=1}. o(X):-q(X,1). :-o(1),o(2).", "t:-{a;b}=1.", "u:-not 1{a;b}1.", "1<#sum{1:a;2:b}<4.",
]
THEORY = "#theory t{x{+ : 1,binary,left;- : 1,unary};&s/1:x,{<=},x,any;&h/0:x,any}. "
TH = ["&s(1){}. {a}.", "{a;b}. &s(f(1,-2)){1,(2,):a;{3};[4,\"x\"]:b,not a}<=1+2.", "{a}. b:-&s(X){X:a},X=1..2.", "{a}. &h{a:a;b}. :-&s(()){}<=3."]


def parse(sx):
    return [x for x in sx.strip("[]").split(",") if x]


def lits(s):
    return tuple((x.lstrip("-"), x[0] != "-") for x in parse(s))


def wl(s):
    x = parse(s.replace("[", "").replace("]", ""))
    return tuple((x[i].lstrip("-"), x[i][0] != "-", int(x[i + 1])) for i in range(0, len(x), 2))


class Replay:
    """The program described by the observed statements."""

    def __init__(self):
        self.P = []
        self.ext = {}
        self.assume = []
        self.min = {}
        self.atoms = {}
        self.terms = []
        self.proj = set()
        self.tha = set()
        self.th = []
        self.thl = []

    def read(self, log):
        self.assume = []
        thl = []
        for e in log:
            k, _, r = e.partition(" ")
            f = r.split(" ")
            if k == "rule":
                self.P.append(("rule", f[0] == "1", tuple(parse(f[1])), lits(f[2])))
            elif k == "weight_rule":
                self.P.append(("rule", f[0] == "1", tuple(parse(f[1])), (("sum", int(f[2]), wl(f[3])),)))
            elif k == "minimize":
                self.min.setdefault(int(f[0]), []).extend(wl(f[1]))
            elif k == "project":
                self.proj |= set(parse(f[0]))
            elif k == "output_atom":
                s, _, a = r.rpartition(" ")
                self.atoms[s] = a
            elif k == "output_term":
                s, _, c = r.rpartition(" ")
                self.terms.append((s, lits(c)))
            elif k == "external":
                v = {"True": "t", "False": "f", "Free": "u", "Release": "r"}[f[1]]
                if self.ext.get(f[0]) != "r":
                    self.ext[f[0]] = v
            elif k == "assume":
                self.assume += lits(f[0])
            elif k == "acyc_edge":
                self.P.append(("edge", f[0], f[1], lits(f[2])))
            elif k.startswith("theory"):
                self.th.append(e)
                thl.append(e)
                if k.startswith("theory_atom") and f[0] != "0":
                    self.tha.add(f[0])
            elif k not in ("init_program", "begin_step", "end_step", "heuristic"):
                return "unknown event " + e
        self.thl = thl
        return None

    def models(self, mins):
        M = [("min", p, tuple(x)) for p, x in self.min.items()]
        # theory atoms without a definition are up to the theory
        P = self.P + [("rule", True, (a,), ()) for a in sorted(self.tha - {a for s in self.P if s[0] == "rule" for a in s[2]})] + M + [("assume", tuple(self.assume))]
        # (atoms that are facts have no need to be guessed)
        out = []
        for X in stable(P, self.ext):
            sh = {s for s, a in self.atoms.items() if a == "0" or a in X}
            sh |= {s for s, c in self.terms if asp.sat(c, X)}
            c = asp.cost(M, X)
            out.append((",".join(sorted(sh)), ",".join(str(c[p]) for p in sorted(c, reverse=True)) if mins else ""))
        return sorted(out)


def stable(P, ext):
    """Stable models; first fixes what follows from facts and has no rule to keep the search small."""
    P = list(P)
    heads = {a for s in P if s[0] == "rule" for a in s[2]}
    for a, v in ext.items():
        if a not in heads:
            if v == "t":
                P.append(("rule", False, (a,), ()))
            elif v == "u":
                P.append(("rule", True, (a,), ()))
    while True:
        heads = {a for s in P if s[0] == "rule" for a in s[2]}
        facts = {s[2][0] for s in P if s[0] == "rule" and not s[1] and len(s[2]) == 1 and not s[3]}
        Q = []

        def val(l):
            if l[0] in facts:
                return l[1]
            if l[0] not in heads:
                return not l[1]
            return None

        for s in P:
            if s[0] == "rule":
                b, keep = [], True
                for l in s[3]:
                    if l[0] == "sum":
                        bound = l[1]
                        el = []
                        for e in l[2]:
                            v = val(e)
                            if v is None:
                                el.append(e)
                            elif v:
                                bound -= e[2]
                        if sum(e[2] for e in el if e[2] > 0) < bound:
                            keep = False
                        elif sum(e[2] for e in el if e[2] < 0) < bound:
                            b.append(("sum", bound, tuple(el)))
                    else:
                        v = val(l)
                        if v is False:
                            keep = False
                        elif v is None:
                            b.append(l)
                if s[1]:
                    h = tuple(a for a in s[2] if a not in facts)
                    if not h:
                        keep = False
                else:
                    h = s[2]
                    if any(a in facts for a in h) and (len(h) > 1 or b):
                        keep = False
                if keep:
                    n = ("rule", s[1], h, tuple(b))
                    if n not in Q:
                        Q.append(n)
            else:
                Q.append(s)
        if Q == P:
            break
        P = Q
    free = [s for s in P if s[0] != "rule" or not (not s[1] and len(s[2]) == 1 and not s[3])]
    facts = frozenset(s[2][0] for s in P if s[0] == "rule" and not s[1] and len(s[2]) == 1 and not s[3])
    # remaining literals over facts occur in other statements only
    fx = []
    for s in free:
        if s[0] == "assume" or s[0] == "edge":
            fx.append(s)
    core = [s for s in free if s[0] == "rule"]
    r = []
    for X in asp.stable(core):
        Y = X | facts
        if all(asp.sat(s[1], Y) for s in fx if s[0] == "assume") and asp.acyclic(fx, Y):
            r.append(Y)
    return r


class Do:
    def __init__(self, ctx, lang, lib):
        self.ctx = ctx
        self.it = sl.Interp(ctx, lang)
        self.k = "%s %s" % (lang, lib)

    def step(self, R, first, mins, what, skip=(), twice=False):
        """Solves and compares with the replay of what was observed."""
        ctx, it, k = self.ctx, self.it, self.k
        th = it.do("theory") if THEORY in what else ""
        ev = it.solve("c")
        if ev is None:
            return
        log = it.do("obslog").split("\x01")
        self.log = log
        ctx.transitions += len(log)
        if twice:
            ctx.check(len(log) % 2 == 0 and log[::2] == log[1::2], k + ": two observers", log)
            log = log[::2]
        body = [e for e in log if e.split(" ")[0] not in ("init_program", "begin_step", "end_step")]
        br = (["init_program 1"] if first else []) + ["begin_step"] + body + ["end_step"]
        e = R.read(log)
        if log == br[:-1] and not R.models(mins):
            br = log  # a program that is inconsistent from the start is not ended
        ctx.eq(k + ": bracketing", log, br, what)
        if e:
            ctx.fail(k + ": events", e + " [%s]" % ctx.cur)
            return
        got = []
        for x in ev:
            if x[0] == "M":
                f = x[1:].split("|")
                sh = ",".join(sorted(set(asp.split(f[1].split(";")[4], ","))))
                got.append((sh, f[3] if mins else ""))
        ctx.eq(k + ": models of the observed program", sorted(got), R.models(mins), what)
        ctx.state((what, tuple(log)))
        if th and not th.startswith("E:"):
            V = {}
            a = sorted(c7.strip(x) for x in th.split("\x01"))
            b = sorted(c7.norm(x) for x in c7.resolve(R.thl, V))
            # (an atom that is a fact has no literal of its own)
            ctx.eq(k + ": theory atoms of the observed program", b, a, what)

    def new(self, text, obs=("_",), n=1, args="", number=0):
        it = self.it
        it.do("reset")
        it.ok("new", "%d --opt-mode=enum%s" % (number, args))
        for _ in range(n):
            it.ok("obs", *obs)
        it.ok("add", "base", "", text)
        it.ok("ground", "base")
        it.do("level", "f", "")


KINDS = ["init_program", "begin_step", "end_step", "rule", "weight_rule", "minimize", "project", "output_atom", "output_term", "external", "assume", "heuristic", "acyc_edge", "theory_term_number", "theory_term_string", "theory_term_compound", "theory_element", "theory_atom", "theory_atom_with_guard"]


def pairs(ctx, lang, lib, i, n):
    d = Do(ctx, lang, lib)
    T = [TEXT[j] for j in range(len(TEXT))]
    allp = [(x,) for x in T] + list(itertools.combinations(T, 2)) + [(THEORY + x,) for x in TH] + [(THEORY + x, y) for x in TH for y in T[:12]]
    for p in sl.chunks(allp, i, n):
        text = " ".join(p)
        ctx.journal("%s %s %r" % (lang, lib, text))
        ctx.execs += 1
        ctx.nontrivial += 1
        mins = "#m" in text or ":~" in text
        d.new(text)
        d.step(Replay(), True, mins, text)
        if len(p) == 1:
            full = d.log
            # observers without one method, with one method only
            for kk in KINDS:
                for skip in ((kk,), tuple(x for x in KINDS if x != kk)) + ((("duck", kk), ("duck",) + tuple(x for x in KINDS if x != kk)) if lang == "python" else ()):
                    ctx.journal("%s %s %r without %s" % (lang, lib, text, skip))
                    d.new(text, ("_", ",".join(skip)))
                    d.it.solve("c")
                    log = [x for x in d.it.do("obslog").split("\x01") if x]
                    ctx.eq(d.k + ": partial observer", log, [x for x in full if x.split(" ")[0] not in skip], text)
            for o in (("0",), ("_",)):
                d.new(text, o, 2)
                d.step(Replay(), True, mins, text, twice=True)
            # the solver sees nothing
            ctx.journal("%s %s %r replace" % (lang, lib, text))
            d.new(text, ("1",))
            ev = d.it.solve("c")
            if ev is not None:
                ctx.check([sl.models(ev), sl.final(ev)] in ([[], "--100"], [[""], "10010"]), d.k + ": models of a replacing observer", ev)
                ctx.eq(d.k + ": replacing observer", d.it.do("obslog").split("\x01"), full, text)
    d.it.i.close()


STEPS = [
    ("add", "c:-a. {d}:-c."), ("add", ":-a."), ("add", "#external e. [true] x:-e."), ("add", "#minimize{2@3,b:b}. g."), ("add", "#show t:a. #show h(1)."), ("add", "{k(1..2)}. l:-2{k(1);k(2)}."),
    ("add", "#external e. y:-e,not a."), ("add", "#edge (0,1):a. #edge (1,0):b."), ("ext", "z", "t"), ("ext", "z", "u"), ("rel", "z"), ("be", "atom a a;atom m m;rule m -a;assume a"), ("be", "atom b b;min 1 b=2;atom n n;ext n u"), None,
]


def hist(ctx, lang, lib, i, n):
    d = Do(ctx, lang, lib)
    depth = 3 if ctx.tier == "quick" or lang != "python" else 4
    for h in sl.chunks([x for k in range(1, depth + 1) for x in itertools.product(range(len(STEPS)), repeat=k)], i, n):
        # (a definition may be given once)
        st = [STEPS[x] for x in h]
        adds = [x for x in h if STEPS[x] and (STEPS[x][0] == "add" or STEPS[x][0] == "be")]
        if len(set(adds)) != len(adds) or (2 in h and 6 in h) or (lang == "lua" and 11 in h):
            continue
        ctx.journal("%s %s %s" % (lang, lib, st))
        ctx.execs += 1
        ctx.nontrivial += 1
        d.new("{a;b}. #external z. w:-z,not b. #minimize{1@1,a:a}.")
        R = Replay()
        d.step(R, True, True, "base")
        for j, s in enumerate(st):
            if s is not None:
                if s[0] == "add":
                    d.it.ok("add", "p%d" % j, "", s[1])
                    d.it.ok("ground", "p%d" % j)
                else:
                    d.it.ok(*s)
            d.step(R, False, True, "step %d of %s" % (j, st))
    d.it.i.close()


def direct(ctx, lang, lib):
    """Directives that do not change the answer sets: the events themselves."""
    d = Do(ctx, lang, lib)

    def run(text, *obs):
        ctx.journal("%s %s %r" % (lang, lib, text))
        ctx.execs += 1
        ctx.nontrivial += 1
        d.new(text, obs or ("_",))
        d.it.solve("c")
        log = [x for x in d.it.do("obslog").split("\x01") if x]
        ctx.state((text, tuple(log)))
        # atoms get their names from the output statements
        N = {}
        for e in log:
            if e.startswith("output_atom "):
                _, n, a = e.split(" ")
                N[a] = n
        out = []
        for e in log:
            f = e.split(" ")
            if f[0] == "heuristic":
                out.append((f[0], N.get(f[1], f[1]), *f[2:5], [("-" if x[0] == "-" else "") + N.get(x.lstrip("-"), x) for x in parse(f[5])]))
            elif f[0] == "acyc_edge":
                out.append((f[0], f[1], f[2], [("-" if x[0] == "-" else "") + N.get(x.lstrip("-"), x) for x in parse(f[3])]))
            elif f[0] == "project":
                out.append((f[0], [N.get(x, x) for x in parse(f[1])]))
        return out

    base = "{a;b;c}. "
    for t, b, p, (c, cl) in itertools.product(("level", "sign", "factor", "init", "true", "false"), (-2, 0, 3), (0, 1, 5), (("", []), (":b", ["b"]), (":b,not c", ["-c", "b"]), (":not a", ["-a"]))):
        got = run(base + "#heuristic a%s. [%d@%d,%s]" % (c, b, p, t))
        ctx.eq(d.k + ": heuristic", [(*x[:5], sorted(x[5])) for x in got], [("heuristic", "a", t.capitalize(), str(b), str(p), cl)], t)
    for t, b in (("level", 2), ("sign", -1)):
        # (the priority is 0 by default)
        got = run(base + "#heuristic b. [%d,%s]" % (b, t))
        ctx.eq(d.k + ": heuristic", got, [("heuristic", "b", t.capitalize(), str(b), "0", [])], t)
    nodes = ("0", "5", "u", '"v"', "-3", "f(1)")
    for x, y, z in itertools.permutations(nodes, 3):
        for cs in (("a", "b", "not c"), ("a,b", "c,not a", "b")):
            text = base + " ".join("#edge (%s,%s):%s." % (*e, c) for e, c in zip(((x, y), (y, x), (y, z)), cs))
            got = run(text)
            k = lambda c: sorted(q.replace("not ", "-") for q in c.split(","))
            E = {tuple(sorted(g[3])): g[1:3] for g in got}
            ctx.eq(d.k + ": edges", sorted(E), sorted(tuple(k(c)) for c in cs), text)
            ctx.eq(d.k + ": number of edges", len(got), 3, text)
            if len(E) == 3:
                (u, v), e2, e3 = (E[tuple(k(c))] for c in cs)
                ctx.check(u != v and e2 == (v, u), d.k + ": reverse edge", "%s: %s" % (text, got))
                ctx.check(e3[0] == v and e3[1] not in (u, v), d.k + ": nodes of an edge", "%s: %s" % (text, got))
    d.it.i.close()


SIZES = list(range(4, 18)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]


def wide(ctx, lang, lib):
    """Statements of every size."""
    d = Do(ctx, lang, lib)
    for n in SIZES:
        X = ["x%d" % i for i in range(n)]
        el = ";".join("%d,%s:%s" % (i + 1, x, x) for i, x in enumerate(X))
        text = "{%s}. c:-%s. d:-%s. #minimize{%s}. e:-2#sum{%s}. %s &t{%s}. &t{f(%s)}. #theory th{u{};&t/0:u,any}. #show v:%s. #show. %s #edge(1,2):%s. #heuristic c:%s. [1@2,level]" % (
            ";".join(X), ",".join(X), ",".join("not " + x for x in X), el, el, " ".join("#project %s." % x for x in X), ";".join("f(%s):%s" % (x, x) for x in X), ",".join(X), ",".join(X), " ".join("#show %s/0." % x for x in X + ["c", "d", "e"]), ",".join(X), ",".join("not " + x for x in X))
        ctx.journal("%s %s wide %d" % (lang, lib, n))
        ctx.execs += 1
        ctx.nontrivial += 1
        ctx.state((lang, lib, n))
        d.new(text, number=1)
        d.it.solve("c")
        log = [x.split(" ") for x in d.it.do("obslog").split("\x01") if x]
        ctx.transitions += len(log)
        N = {f[2]: f[1] for f in log if f[0] == "output_atom"}
        nm = lambda a: "-" + N.get(a[1:], "?") if a[0] == "-" else N.get(a, "?")
        l = lambda s: sorted(nm(str(x)) for x in parse(s))
        w = lambda s: sorted((nm(("" if p else "-") + a), b) for a, p, b in wl(s))
        P, M = sorted(X), sorted("-" + x for x in X)
        W = sorted((x, i + 1) for i, x in enumerate(X))
        rules = [(f[1], l(f[2]), l(f[3])) for f in log if f[0] == "rule"]
        k = d.k + " wide: "
        what = "size %d" % n
        ctx.eq(k + "choice", [r[1] for r in rules if r[0] != "0" and len(r[1]) > 1], [P], what)
        ctx.eq(k + "body", [r[2] for r in rules if r[1] == ["c"]], [P], what)
        ctx.eq(k + "negative body", [r[2] for r in rules if r[1] == ["d"]], [M], what)
        ctx.eq(k + "weight rule", [(f[3], w(f[4])) for f in log if f[0] == "weight_rule"], [("2", W)], what)
        ctx.eq(k + "minimize", [(f[1], w(f[2])) for f in log if f[0] == "minimize"], [("0", W)], what)
        ctx.eq(k + "project", sorted(x for f in log if f[0] == "project" for x in l(f[1])), P, what)
        ctx.eq(k + "output", sorted(N.values()), sorted(X + ["c", "d", "e"]), what)
        ctx.eq(k + "edge", [l(f[3]) for f in log if f[0] == "acyc_edge"], [P], what)
        ctx.eq(k + "heuristic", [(f[2:5], l(f[5])) for f in log if f[0] == "heuristic"], [(["Level", "1", "2"], M)], what)
        S = {f[1]: f[2] for f in log if f[0] == "theory_term_string"}
        cp = {f[1]: (S.get(f[2], f[2]), [S.get(str(x), str(x)) for x in parse(f[3])]) for f in log if f[0] == "theory_term_compound"}
        E = {f[1]: ([cp.get(str(x)) for x in parse(f[2])], l(f[3])) for f in log if f[0] == "theory_element"}
        got = sorted([sorted(E[str(x)] for x in parse(f[3])) for f in log if f[0] == "theory_atom"], key=len)
        ctx.eq(k + "theory atoms", got, [[([("f", X)], [])], sorted(([("f", [x])], [x]) for x in X)], what)
        t = [f for f in log if f[0] == "output_term"]
        ctx.eq(k + "term", [f[1] for f in t], ["v"], what)
    d.it.i.close()


def tasks(tier):
    out = []
    for lib in ("sys", "eng"):
        for l in ("python", "c++", "lua"):
            out += [Py("pairs", l, lib, i, 4, lib=lib, name="pairs-%s-%s-%d" % (l, lib, i)) for i in range(4)]
            out.append(Py("wide", l, lib, lib=lib, name="wide-%s-%s" % (l, lib)))
            out.append(Py("direct", l, lib, lib=lib, name="direct-%s-%s" % (l, lib)))
            out += [Py("hist", l, lib, i, 2, lib=lib, name="hist-%s-%s-%d" % (l, lib, i)) for i in range(2)]
    return out
