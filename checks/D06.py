"""D06: the symbolic-atom view lists exactly the atoms of the ground program."""
import itertools

import asp
import checks.solvelib as sl
from vplib import Py

PID = "D06"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of programs and two-step histories with all queries on the atom view, against the ground program"
NOTE = "All programs of up to three statements from an alphabet with facts, choices, disjunctions, negation, classical negation, externals and arities 0 to 2, all two-step histories over them, and every number of atoms, signatures and arguments up to 24 and around powers of two up to 300, with every iteration, every lookup, every signature (with each sign and default), counting, matching and every literal in every model, in Python, C++ and Lua, on two libraries."
RULE = ""
BUILD = ["sys/py/_clingo.so", "sys/lua/clingo.so", "sys/drv/icpp", "eng/py/_clingo.so", "eng/lua/clingo.so", "eng/drv/icpp"]
ASSUMPTIONS = ["which atoms are possible and which are facts follows the definition in this check"]

ALPHA = [
    "a.", "{a}.", "-a.", "{-a}.", "p(1).", "{p(1);p(2)}.", "p(1,2).", "-p(1):-a.", "q(2):-not a.", "{q(f(x,-1))}.", 'q("s_t"):-p(1).', "a;b.", "b:-not a.", "p(1):-not p(2).",
    "#external e.", "#external -e(1). [true]", "#external a. [free]", "e:-b.", "b:-e.", "c:-a,not b.", "-q(1,(2,)):-p(1,2).", ":-b.", "p(0):-p(1),p(2).", "{p}.",
]
PROBES = ["a", "-a", "b", "c", "e", "-e(1)", "p", "p(0)", "p(1)", "-p(1)", "p(2)", "p(1,2)", "p(3)", "q(2)", "q(f(x,-1))", 'q("s_t")', "-q(1,(2,))", "zz", "7", '"a"', "#inf", "(1,2)"]
SIGS = [("a", 0), ("b", 0), ("c", 0), ("e", 0), ("e", 1), ("p", 0), ("p", 1), ("p", 2), ("q", 1), ("q", 2), ("zz", 0), ("", 2)]


def sig(s):
    pos = not s.startswith("-")
    t = s.lstrip("-")
    n, _, a = t.partition("(")
    return (n, len(asp.split(a[:-1], ",")) if a else 0, pos)


class Model:
    """Possible atoms and facts of the statements grounded so far."""

    def __init__(self):
        self.poss = set()
        self.fact = set()
        self.defined = set()
        self.ext = {}
        self.st = []

    def ground(self, P):
        P = list(P)
        self.st += P
        # externals are possible unless already defined
        new = set(self.poss)
        while True:
            n = len(new)
            for s in P:
                if s[0] == "ext":
                    new.add(s[1])
                elif all(not sg or a in new for a, sg in s[3]):
                    new |= set(s[2])
            if len(new) == n:
                break
        self.poss = new
        # atoms that follow from facts; negation of what is impossible holds
        while True:
            n = len(self.fact)
            for s in P:
                if s[0] == "rule" and not s[1] and len(s[2]) == 1 and all((a in self.fact) if sg else (a not in self.poss) for a, sg in s[3]):
                    self.fact.add(s[2][0])
            if len(self.fact) == n:
                break

        # the same if what is up to the grounder is not listed
        no = unsure(self)
        self.factmax = set(self.fact)
        while True:
            n = len(self.factmax)
            for s in self.st:
                if s[0] == "rule" and not s[1] and len(s[2]) == 1 and all((a in self.factmax) if sg else (a not in self.poss - no) for a, sg in s[3]):
                    self.factmax.add(s[2][0])
            if len(self.factmax) == n:
                break


def query(ctx, it, k, M, what, maybe, sat):
    """All queries on the atom view agree with each other and the model."""
    raw = it.ok("atoms")
    L = asp.split(raw, " ")
    A = {}
    for x in L:
        s, f, l = x.rsplit("/", 2)
        ctx.check(s not in A, k + ": atom listed once", what + ": " + raw)
        A[s] = (x, f[0] == "1", f[1] == "1", int(l))
    ctx.eq(k + ": second iteration", it.do("atoms2"), raw, what)
    # what is certain: facts, and atoms in answer sets; what is listed is possible
    ctx.check(set(A) <= M.poss, k + ": listed atoms", "%s: %s not in %s" % (what, sorted(set(A) - M.poss), sorted(M.poss)))
    miss = {a for a in M.poss - set(A)}
    ctx.check(miss <= maybe, k + ": missing atoms", "%s: %s" % (what, sorted(miss)))
    for s, (x, f, e, l) in A.items():
        ctx.check((s in M.fact or s in maybe) <= (f or s in maybe) and f <= (s in M.factmax or s in maybe), k + ": fact status", "%s: %s is %s" % (what, s, f))
        if sat:
            ctx.eq(k + ": external status", e, s in M.ext and s not in M.defined, what + ": " + s)
    ctx.eq(k + ": size", it.do("size"), str(len(L)), what)
    for s in PROBES:
        ctx.transitions += 1
        ctx.eq(k + ": lookup", it.do("lookup", s), A[s][0] if s in A else "-", what + ": " + s)
    for n, a in SIGS:
        for p in ("1", "0", "_"):
            ctx.transitions += 1
            w = " ".join(x for s, (x, _, _, _) in A.items() if sig(s) == (n, a, p != "0"))
            ctx.eq(k + ": by signature", it.do("bysig", n, str(a), p), w, "%s: %s/%d %s" % (what, n, a, p))
    sg = asp.split(it.do("sigs"), " ")
    sg = sorted(sg)
    ctx.check(len(set(sg)) == len(sg), k + ": signatures once", what)
    w = sorted({"%s/%d/%d" % sig(s) for s in A})
    ctx.check(set(w) <= set(sg) and set(sg) <= {"%s/%d/%d" % sig(s) for s in M.poss | {a for s in M.st for a in (s[2] if s[0] == "rule" else [])} | {a for s in M.st if s[0] == "rule" for a, _ in s[3]}}, k + ": signatures", "%s: %s %s" % (what, sg, w))
    for s in A if it.lang != "lua" else ():
        n, a, p = sig(s)
        for (m, b, q) in {(n, a, p), (n, a + 1, p), (n + "x", a, p), (n, a, not p)}:
            ctx.eq(k + ": match", it.do("match", s, m, str(b), "01"[q]), "01"[(m, b, q) == (n, a, p)], "%s: %s %s" % (what, s, (m, b, q)))
    ctx.state((what, raw))
    return A


def models(ctx, it, k, A, what):
    it.do("level", "f", " ".join(PROBES))
    ev = it.solve("c")
    if ev is None:
        return
    for m in ev:
        if m[0] != "M":
            continue
        a = set(asp.split(m[1:].split("|")[0], ","))
        q = m.split("|")[6].split(" ")
        for s, con, y in zip(PROBES, q[0], q[1:]):
            ctx.transitions += 1
            if s in A:
                ctx.eq(k + ": literal in a model", y[:2] if it.lang != "lua" else y[:2], "10" if s in a else "01", "%s: %s in %s" % (what, s, sorted(a)))
            else:
                ctx.eq(k + ": unknown atom in a model", (con, y), ("0", "-"), "%s: %s" % (what, s))


def run(ctx, it, k, parts, ops=()):
    ctx.journal("%s %s %s" % (k, parts, ops))
    ctx.execs += 1
    ctx.nontrivial += 1
    it.do("reset")
    it.ok("new", "0")
    M = Model()
    for i, p in enumerate(parts):
        it.ok("add", "p%d" % i, "", p)
        it.ok("ground", "p%d" % i)
        P = asp.parse(p)
        M.ground(P)
        for s in P:
            if s[0] == "ext":
                M.ext.setdefault(s[1], s[2])
            elif s[0] == "rule":
                # (a rule that cannot apply leaves the atom external)
                if all((a in M.poss) if sg else (a not in M.fact) for a, sg in s[3]):
                    M.defined |= set(s[2])
        # facts are not guessed: negative literals over them drop rules
        maybe = unsure(M)
        A = query(ctx, it, k, M, "%s after part %d" % (parts, i), maybe, not clash(M))
        models(ctx, it, k, A, "%s after part %d" % (parts, i))
    return M


def clash(M):
    """Whether the program has no answer set (what then happens to externals does not matter)."""
    return not asp.stable(M.st + [("rule", True, [a], []) for a in M.ext])


def unsure(M):
    """Atoms whose rules all need something that a fact rules out; whether they are listed is up to the grounder."""
    ok = set()
    while True:
        n = len(ok)
        for s in M.st:
            if s[0] == "ext":
                ok.add(s[1])
            elif (s[1] or len(s[2]) < 2 or not set(s[2]) & M.fact) and all((a in ok) if sg else (a not in M.fact) for a, sg in s[3]):
                ok |= set(s[2])
        if n == len(ok):
            return M.poss - ok


def single(ctx, lang, lib, i, n):
    it = sl.Interp(ctx, lang)
    k = "%s %s" % (lang, lib)
    d = 3 if lib == "sys" and (lang == "python" or ctx.tier == "thorough") else 2
    for text in sl.chunks(list(sl.sets(ALPHA, d)), i, n):
        run(ctx, it, k, [text])
    it.i.close()


def steps(ctx, lang, lib, i, n):
    it = sl.Interp(ctx, lang)
    k = "%s %s" % (lang, lib)
    for a, b in sl.chunks(list(itertools.permutations(ALPHA, 2)), i, n):
        # an atom is defined in one step only
        h = lambda t: {x for s in asp.parse(t) if s[0] == "rule" for x in s[2]}
        e = lambda t: {s[1] for s in asp.parse(t) if s[0] == "ext"}
        if h(a) & h(b) or h(a) & e(b):
            continue
        run(ctx, it, k, [a + " {p(3)}.", b])
    it.i.close()


SIZES = list(range(1, 17)) + [31, 32, 33, 64, 65, 128, 129, 256, 257]


def wide(ctx, lang, lib):
    """Every number of atoms, signatures and arguments, over two steps."""
    it = sl.Interp(ctx, lang)
    k = "%s %s wide" % (lang, lib)
    for n in SIZES:
        N = range(1, n + 1)
        ctx.journal("%s %d" % (k, n))
        ctx.execs += 1
        ctx.nontrivial += 1
        it.do("reset")
        it.ok("new", "0")
        arg = ",".join(map(str, N))
        parts = [("p(1..%d). {q(1..%d)}. #external e(1..%d). l(%s)." % (n, n, n, arg), {"p(%d)" % i: "10" for i in N} | {"q(%d)" % i: "00" for i in N} | {"e(%d)" % i: "01" for i in N} | {"l(%s)" % arg: "10"}),
                 (" ".join("r%d. {-s%d(%d)}." % (i, i, i) for i in N), {"r%d" % i: "10" for i in N} | {"-s%d(%d)" % (i, i): "00" for i in N})]
        want = {}
        for j, (text, new) in enumerate(parts):
            want.update(new)
            it.ok("add", "p%d" % j, "", text)
            it.ok("ground", "p%d" % j)
            raw = it.ok("atoms")
            A = {}
            for x in asp.split(raw, " "):
                s, f, l = x.rsplit("/", 2)
                A[s] = x
                ctx.eq(k + ": status", f, want.get(s), "%d: %s" % (n, s))
            ctx.eq(k + ": atoms", sorted(A), sorted(want), "size %d" % n)
            ctx.eq(k + ": size", it.do("size"), str(len(want)), "size %d" % n)
            ctx.eq(k + ": second iteration", it.do("atoms2"), raw, "size %d" % n)
            sg = {sig(s) for s in want}
            ctx.eq(k + ": signatures", sorted(asp.split(it.do("sigs"), " ")), sorted("%s/%d/%d" % x for x in sg), "size %d" % n)
            for m, a, p in sorted(sg):
                ctx.transitions += 1
                ctx.eq(k + ": by signature", it.do("bysig", m, str(a), "01"[p]), " ".join(x for s, x in A.items() if sig(s) == (m, a, p)), "%d: %s/%d" % (n, m, a))
            for s in want:
                ctx.eq(k + ": lookup", it.do("lookup", s), A.get(s), s)
            ctx.state((n, raw))
            if n < 5:
                it.solve("p")
    it.i.close()


def tasks(tier):
    out = []
    for lib in ("sys", "eng"):
        for l in ("python", "c++", "lua"):
            out += [Py("single", l, lib, i, 4, lib=lib, name="single-%s-%s-%d" % (l, lib, i)) for i in range(4)]
            out.append(Py("wide", l, lib, lib=lib, name="wide-%s-%s" % (l, lib)))
            out += [Py("steps", l, lib, i, 1, lib=lib, name="steps-%s-%s-%d" % (l, lib, i)) for i in range(1)]
    return out
