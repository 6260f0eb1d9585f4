"""Helpers shared by the checks that drive the command interpreters."""
import asp
from checks import ipy

RULES = [
    "{a}.", "{a;b}.", "a;b.", "a:-not b.", "b:-not a.", "a:-b.", "b:-a.", "a.",
    ":-a.", ":-not a.", ":-a,b.", ":-not a,not b.", "a:-not not a.", "c:-a.", "c:-not a,b.",
    "1{a;b;c}1.", "c:-2{a;b;not d}.", "{c}:-a.", "d:-#sum{2,a:a;1,b:b}>=2.", "-a:-b.", "#external e. [true] c:-e.", "b;c:-a.",
]
# non-ground programs with their ground equivalents
NONGROUND = [
    ("p(1..2). {q(X):p(X)}. r:-q(1),q(2).", "p(1). p(2). {q(1);q(2)}. r:-q(1),q(2)."),
    ("p(1..3). q(X):-p(X),X!=2,not r(X). r(X):-p(X),not q(X).", "p(1). p(2). p(3). q(1):-not r(1). q(3):-not r(3). r(1):-not q(1). r(2):-not q(2). r(3):-not q(3)."),
    ("e(1,2). e(2,3). t(X,Y):-e(X,Y). t(X,Z):-t(X,Y),e(Y,Z).", "e(1,2). e(2,3). t(1,2). t(2,3). t(1,3)."),
    ("1{c(r;g)}1.", "1{c(r);c(g)}1."),
    ("n(1..2). x(X+1):-n(X),{x(X+1)}0. :-x(2).", None),
    ("{s(1..2)}. ok:-#count{X:s(X)}>=2. :-not ok.", "{s(1);s(2)}. ok:-2{s(1);s(2)}. :-not ok."),
    ("{s(1..2)}. :-s(X):X=1..2.", "{s(1);s(2)}. :-s(1),s(2)."),
    ('s("x y"). t(X):-s(X).', 's("x y"). t("x y").'),
    ("-p(1). {p(2)}. q(X):-not p(X),X=1..2.", "-p(1). {p(2)}. q(1). q(2):-not p(2)."),
]


def events(out):
    return out.split("\x01") if out else []


def models(evs):
    return [e[1:].split("|")[0] for e in evs if e[0] == "M"]


def final(evs):
    assert evs[-1][0] == "R", evs
    return evs[-1][1:]


def sets(text, k):
    """All sequences of up to k distinct rules (order as in the list)."""
    import itertools

    for n in range(1, k + 1):
        for c in itertools.combinations(range(len(text)), n):
            yield " ".join(text[i] for i in c)


def chunks(seq, i, n):
    return [x for j, x in enumerate(seq) if j % n == i]


class Interp:
    """An interpreter whose failures and deaths are reported to ctx."""

    def __init__(self, ctx, lang):
        self.ctx = ctx
        self.lang = lang
        self.i = ipy.make(lang)

    def do(self, *cmd):
        try:
            return self.i.do(*cmd)
        except ipy.Died as e:
            self.ctx.fail("%s interpreter crashes in %s" % (self.lang, cmd[0]), "%s [%s]" % (e, self.ctx.cur))
            return "E:Died"

    def ok(self, *cmd):
        r = self.do(*cmd)
        self.ctx.check(not r.startswith("E:"), "%s: %s fails" % (self.lang, cmd[0]), "%r: %s" % (cmd, r[:300]))
        return r

    def start(self, args, *texts):
        self.do("reset")
        self.ok("new", args)
        for t in texts:
            self.ok("add", "base", "", t)
        self.ok("ground", "base")

    def solve(self, mode, ass="", hook=""):
        r = self.do("solve", mode, ass, hook)
        if r.startswith("E:"):
            self.ctx.fail("%s: solve fails" % self.lang, "solve(%s,%s,%s): %s [%s]" % (mode, ass, hook, r[:300], self.ctx.cur))
            return None
        return events(r)

    def explore(self, name, body):
        """Explores all schedules of body(self) under the engine's choices."""
        def one(ch):
            self.i.choices(ch)
            try:
                body(ch)
            finally:
                if hasattr(self.i, "settle"):
                    self.i.settle()
                self.i.choices(None)

        return self.ctx.explore(name, one)


MODES = {"python": ["p", "c", "ce", "y", "ye", "m", "a", "ae", "yA", "mA"], "c++": ["p", "c", "ce", "y", "m", "a", "ae", "yA", "mA"], "lua": ["p", "pe", "c", "ce", "y"]}


def seqcheck(ctx, k, seq, ref, nested=True, eq=lambda x, y: x == y, absent=()):
    """A read-only sequence is the list ref under every index, slice (twice nested) and search."""
    n = len(ref)
    got = lambda f: _try(f)
    ctx.eq(k + ": len", len(seq), n, "len")
    ctx.eq(k + ": iteration", list(seq), ref, "list")
    ctx.eq(k + ": reversed", list(reversed(seq)), ref[::-1], "reversed")
    for i in range(-n - 2, n + 2):
        ctx.eq(k + ": index", got(lambda: seq[i]), got(lambda: ref[i]), "[%d] of %s" % (i, ref))
        ctx.transitions += 1
    for x in list(ref) + list(absent):
        ctx.eq(k + ": in", x in seq, x in ref, "%s in %s" % (x, ref))
        ctx.eq(k + ": count", seq.count(x), ref.count(x), "count %s" % x)
        ctx.eq(k + ": index of", got(lambda: seq.index(x)), got(lambda: ref.index(x)), "index %s" % x)
    m = min(n + 1, 4)
    ends = [None] + list(range(-m, m + 1))
    steps = (None, 1, 2, -1, -2)
    for a in ends:
        for b in ends:
            for c in steps:
                s, r = seq[a:b:c], ref[a:b:c]
                ctx.transitions += 1
                w = "[%s:%s:%s] of %s" % (a, b, c, ref)
                ctx.eq(k + ": slice", list(s), r, w)
                ctx.eq(k + ": length of slice", len(s), len(r), w)
                for i in (-len(r) - 1, -len(r), -1, 0, len(r) - 1, len(r)):
                    ctx.eq(k + ": index in slice", got(lambda: s[i]), got(lambda: r[i]), "%s[%d]" % (w, i))
                if nested and (c in (None, -2)):
                    for a2 in (None, 1, -2):
                        for b2 in (None, 2, -1):
                            for c2 in (None, -1, 2):
                                ctx.eq(k + ": slice of slice", list(s[a2:b2:c2]), r[a2:b2:c2], "%s[%s:%s:%s]" % (w, a2, b2, c2))
                                ctx.transitions += 1
    ctx.eq(k + ": step 0", got(lambda: list(seq[::0])), "ValueError", "[::0]")
    ctx.execs += 1


def _try(f):
    try:
        return f()
    except Exception as e:  # the class is the observation
        return type(e).__name__
