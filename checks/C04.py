"""C04: a solve handle follows its protocol for every order of operations."""
import itertools

import asp
import checks.solvelib as sl
from vplib import Py

PID = "C04"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of operation sequences on solve handles against a protocol automaton, on all schedules of the engine"
NOTE = "All sequences of up to 4 operations (thorough: 5) on handles of 6 programs (no, one, two and four models, a model limit, assumptions with a core) in every mode and each way of leaving the scope, in Python, C++ and Lua on the installed library; all sequences of up to 3 (4) operations under every progress of the background search on the engine built from the sources. The automaton tracks the set of states that explain all answers so far."
RULE = ""
BUILD = ["sys/py/_clingo.so", "sys/lua/clingo.so", "sys/drv/icpp", "eng/py/_clingo.so", "eng/lua/clingo.so", "eng/drv/icpp"]
ASSUMPTIONS = ["the protocol automaton in this check", "the order of models is the one of a plain solve call of the same library"]

# program, assumptions, model limit
PROGS = [("{a}.", "", 0), ("{a;b}.", "", 0), ("{a}. :-not a.", "-a", 0), ("{a;b}.", "", 2), ("a.", "", 0), ("{a;b}.", "-b", 0)]
OPS = {"r": ("hresume",), "m": ("hmodel",), "n": ("hnext",), "w": ("hwait", "0"), "W": ("hwait",), "g": ("hget",), "c": ("hcancel",), "k": ("hcore",), "l": ("hlast",), "v": ("hmove",)}
LANG = {"python": "rmnwWgck", "c++": "rmnwWgckv", "lua": "rngck"}


class Proto:
    """The states a handle can be in given the answers so far.

    run(i): searching for model i; mod(i): model i is available; done: all is known; cut(i): cancelled after i models."""

    def __init__(self, models, limit, core, yld, asy, exact):
        self.M = models if not limit else models[:limit]
        n = len(self.M)
        self.fin = "01010" if not models else "10010" if not limit else "10000"
        self.lim = limit and limit <= len(models)
        self.n = n
        self.core = core
        self.yld = yld
        self.asy = asy
        self.exact = exact
        self.seen = set()
        self.S = {("run", 0)} if yld or asy else {("done", 0)}

    def target(self, i):
        if not self.yld:
            return ("done", 0)
        return ("mod", i) if i < self.n else ("done", 0)

    def quiet(self):
        """Progress of the background search."""
        if self.asy:
            self.S |= {self.target(s[1]) for s in self.S if s[0] == "run"}

    def go(self):
        """The caller waits."""
        self.S = {self.target(s[1]) if s[0] == "run" else s for s in self.S}

    def resume(self):
        # the installed library ignores this unless the caller saw the model
        self.S = {x for s in self.S for x in ([("run", s[1] + 1)] + ([] if self.exact or not self.asy or s in self.seen else [s]) if s[0] == "mod" else [s])}
        self.quiet()

    def result(self, s):
        if s[0] == "mod":
            return {"10000"}
        if s[0] == "done":
            # whether more models exist is open if the limit is the number of models
            return {self.fin, "10010"} if self.lim and self.fin != "01010" else {self.fin}
        if self.asy:
            # the search may have ended at the same time
            return {"--101", "10001", self.fin[:4] + "1"} | (set() if self.exact else {"01011"})  # (clasp's answer if cancelled before starting)
        return {"--101"} if s[1] == 0 else {"10001"} if s[1] > 0 else {"--101", "10001"}

    def step(self, op, a):
        """Returns the permitted answers if a is not among them."""
        self.quiet()
        if op == "v":
            return None if a == "ok" else ["ok"]
        if op == "r":
            self.resume()
            return None if a == "ok" else ["ok"]
        if op == "c":
            # (without yielding, some models may have been found before)
            n = set()
            for s in self.S:
                n.add(("cut", s[1] if self.yld else -1) if s[0] == "run" else ("cut", s[1] + 1) if s[0] == "mod" else s)
            self.S = n
            return None if a == "ok" else ["ok"]
        if op == "n":
            self.resume()
            op = "m"
        if op == "w":
            if self.exact or not self.asy:
                f = lambda s: {"0" if s[0] == "run" else "1"}
            else:
                # polling the installed library does not count as seeing the model
                f = lambda s: {"0", "1"} if s[0] in ("run", "mod") and s not in self.seen else {"1"}
        elif op == "W":
            self.go()
            f = lambda s: {"1", "ok"}
        elif op == "g":
            self.go()
            f = self.result
        elif op == "m":
            self.go()
            f = lambda s: {"M" + self.M[s[1]]} if s[0] == "mod" and s[1] >= 0 else {"-"}
        elif op == "k":
            f = lambda s: {self.core} if s[0] == "done" and self.fin == "01010" else {""}
        elif op == "l":
            any_ = {"-"} | {"M" + m for m in self.M}
            f = lambda s: ({"M" + self.M[-1]} if self.M else {"-"}) if s[0] == "done" else any_
        keep = {s for s in self.S if a in f(s)}
        if not keep:
            return sorted(set().union(*[f(s) for s in self.S]))
        self.S = keep
        if op in "mgW" or self.exact:
            self.seen |= keep
        return None


class Run:
    def __init__(self, ctx, lang, lib):
        self.ctx = ctx
        self.it = sl.Interp(ctx, lang)
        self.k = "%s %s" % (lang, lib)
        self.exact = lib == "engine"
        if self.exact and lang != "lua":
            # the order of models is fixed here (C01 explores it); choices are about background progress
            for t in ("var", "sign"):
                self.it.do("bound", t, "0")

    def setup(self, prog):
        self.prog = prog
        text, ass, lim = prog
        self.it.start(str(lim), text)
        self.ass = ass and self.lits(ass)
        st = {asp.key(X) for X in asp.stable(asp.parse(text))}
        ev = self.it.solve("c", self.ass)
        self.M = sl.models(ev)
        self.all = sorted(x for x in st if not ass or ass[1:] not in asp.split(x, ","))
        self.ctx.check(len(set(self.M)) == len(self.M) == min(len(self.all), lim or 99) and set(self.M) <= set(self.all), self.k + ": models of a plain call", self.M)
        if not lim:
            self.ctx.eq(self.k + ": result of a plain call", sl.final(ev), "01010" if not self.all else "10010", text)
        self.core = self.ass if not self.M else ""
        if not ass and not self.M:
            self.core = ""

    def lits(self, ass):
        l = self.it.do("lookup", ass[1:]).split("/")[-1]
        return str(-int(l))

    def seq(self, mode, seq, drop):
        ctx = self.ctx
        it = self.it
        P = Proto(self.M if self.prog[2] else self.M, self.prog[2], self.core, "y" in mode, "A" in mode, self.exact)
        it.ok("hstart", mode or "_", self.ass)
        out = []
        for o in seq:
            ctx.transitions += 1
            a = it.do(*OPS[o])
            out.append(a)
            w = P.step(o, a)
            if w is not None:
                ctx.fail("%s mode '%s': answer of %s" % (self.k, mode, OPS[o][0]), "%s after %s = %s: got %s, expected one of %s [%s]" % (o, seq, out, a, w, ctx.cur))
                break
            ctx.state((self.prog, mode, tuple(sorted(P.S))))
        it.ok("hdrop" if drop else "hclose")
        ctx.nontrivial += 1
        # the control is usable again
        ev = it.solve("c", self.ass)
        if ev is not None:
            ctx.eq("%s mode '%s': solving after leaving the handle" % (self.k, mode), sorted(sl.models(ev)), sorted(self.M) if not self.prog[2] else sorted(sl.models(ev)), "%s %s" % (seq, out))
            ctx.eq("%s mode '%s': number of models after leaving the handle" % (self.k, mode), len(sl.models(ev)), len(self.M), "%s %s" % (seq, out))


def seqs(ops, k, full=False):
    """Sequences of length up to k (checking the longest covers their prefixes)."""
    return ["".join(x) for x in itertools.product(ops, repeat=k)] + [""]


def plain(ctx, lang, i, n):
    r = Run(ctx, lang, "installed")
    k = {"python": 4, "c++": 4, "lua": 4}[lang] + (ctx.tier == "thorough")
    modes = {"python": ["y", "yA", "A"], "c++": ["y", "", "yA", "A"], "lua": ["y"]}[lang]
    for prog in PROGS:
        r.setup(prog)
        for mode in modes:
            kk = k if mode == "y" else k - 1
            for j, s in enumerate(sl.chunks(seqs(LANG[lang], kk), i, n)):
                ctx.journal("%s %r mode=%s seq=%s" % (lang, prog, mode, s))
                ctx.execs += 1
                r.seq(mode, s, j % 2 == 1)
    r.it.i.close()


def sched(ctx, lang, i, n):
    r = Run(ctx, lang, "engine")
    k = 4 + (ctx.tier == "thorough")
    ops = LANG[lang].replace("v", "") + ("l" if lang != "lua" else "")
    modes = {"python": ["y", "yA", "A"], "c++": ["y", "yA", "A"], "lua": ["y"]}[lang]
    for prog in PROGS[:4]:
        r.setup(prog)
        for mode in modes:
            for s in sl.chunks(seqs(ops, k if mode != "y" else k), i, n):
                def body(ch):
                    ctx.journal("%s %r mode=%s seq=%s schedule=%s" % (lang, prog, mode, s, ch.prefix))
                    r.seq(mode, s, len(ch.path) % 2 == 1)

                if "A" in mode:
                    r.it.explore("%s %s %s %s" % (lang, prog, mode, s), body)
                else:
                    ctx.journal("%s %r mode=%s seq=%s" % (lang, prog, mode, s))
                    ctx.execs += 1
                    r.seq(mode, s, False)
    r.it.i.close()


def tasks(tier):
    out = [Py("plain", l, i, 4, lib="sys", name="plain-%s-%d" % (l, i)) for l in ("python", "c++", "lua") for i in range(4)]
    out += [Py("sched", l, i, 4, lib="eng", name="sched-%s-%d" % (l, i)) for l in ("python", "c++", "lua") for i in range(4)]
    return out
