"""D07: messages reach the logger completely and within the limit."""
import itertools
import os
import re
import sys
import tempfile

import checks.solvelib as sl
from vplib import Py

PID = "D07"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of histories of operations that raise messages, under every message limit and with and without logger, against a reference of messages and of the limit"
NOTE = "All histories of up to three program parts (quick: three with limits 0 to 3; thorough: four) over an alphabet with every kind of warning and error, each added, loaded, or added as syntax tree, grounded and solved, with limits 0 to 3 and the default, with and without logger, and the parsing functions for programs, files and terms, in Python, C++ and Lua on two libraries; every number of messages up to 300 with limits around it; two controls with loggers of their own in all interleavings. Codes, locations, texts and order of messages and the text printed to standard error are compared."
RULE = ""
BUILD = ["sys/py/_clingo.so", "sys/lua/clingo.so", "sys/drv/icpp", "eng/py/_clingo.so", "eng/lua/clingo.so", "eng/drv/icpp"]
ASSUMPTIONS = ["the first error is reported even if the limit is used up; further messages then stop the operation"]

U, O, G, F, E = "AtomUndefined", "OperationUndefined", "GlobalVariable", "FileIncluded", "RuntimeError"
# name -> (text, messages when parsed, messages when grounded): (code, location, rest)
ALPHA = {
    "ok": ("q.", [], []),
    "atom": ("a:-b%d.", [], [(U, "1:4-6", "info: atom does not occur in any rule head:\n  b%d\n")]),
    "neg": ("n:-not m%d(1).", [], [(U, "1:8-13", "info: atom does not occur in any rule head:\n  m%d(1)\n")]),
    "op": ("p(%d/0).", [], [(O, "1:3-6", "info: operation undefined:\n  (%d/0)\n")]),
    "fun": ("p(@zz%d(1)).", [], [(O, "1:3-10", "info: operation undefined:\n  function 'zz%d' not found\n")]),
    "ival": ("p(%d..a).", [], [(O, "1:3-7", "info: interval undefined:\n  %d..a\n")]),
    "global": ("g:-X=1..2,#sum{X:o}1. o. %%%d", [], [(G, "1:16-17", "info: global variable in tuple of aggregate element:\n  X\n")]),
    "include": ('#include "INC". %%%d\n#include "INC".', [(F, "1:1-", "warning: already included file:\n")], []),
    "syntax": ("p(%d. q.", [(E, "1:4-5", "error: syntax error, unexpected ., expecting ) or ;\n")], []),
    "two": ("p(%d. p(a. q.", [(E, "1:4-5", "error: syntax error, unexpected ., expecting ) or ;\n"), (E, "1:9-10", "error: syntax error, unexpected ., expecting ) or ;\n")], []),
    "lexer": ("p(\u00e4%d).", [(E, "1:3-4", "error: lexer error, unexpected ")] + [(E, "1:3-5", "error: lexer error, unexpected \u00e4\n")], []),
    "unsafe": ("u%d(X).", [], [(E, "1:1-7", "error: unsafe variables in:\n  u%d(X):-[")]),
    "theory": ("&t%d{}.", [], [(E, "1:1-6", "error: no definition found for theory atom:\n  t%d/0\n")]),
    "defined": ("#defined b%d/0. a:-b%d.", [], []),
}
QUICK = ["ok", "atom", "op", "global", "include", "syntax", "two", "unsafe", "fun"]
LIMITS = ["", "d", "0", "1", "2", "3"]


class Ref:
    """The state of a logger with a limit."""

    def __init__(self, limit):
        self.limit = 20 if limit in ("", "d") else int(limit)
        self.error = False

    def step(self, msgs):
        """Messages reported and whether the operation fails; error messages first only if parsing."""
        out = []
        for m in msgs:
            if self.limit == 0 and self.error:
                return out, True
            if m[0] == E:
                self.error = True
                self.limit = max(0, self.limit - 1)
                out.append(m)
            elif self.limit > 0:
                self.limit -= 1
                out.append(m)
        return out, any(m[0] == E for m in out)


class Err:
    """Captures standard error of this process and its interpreters."""

    def __init__(self):
        self.f = tempfile.NamedTemporaryFile()
        os.environ["VP_STDERR"] = self.f.name
        self.old = os.dup(2)
        self.fd = os.open(self.f.name, os.O_WRONLY | os.O_APPEND)
        sys.stderr.flush()
        os.dup2(self.fd, 2)
        self.pos = 0

    def take(self):
        self.f.seek(self.pos)
        r = self.f.read()
        self.pos += len(r)
        return r.decode(errors="replace")

    def close(self):
        os.dup2(self.old, 2)


def match(ctx, key, what, got, want):
    """Compares messages as reported by the interpreter with those expected."""
    got = [x for x in got.split("\x01") if x]
    ok = len(got) == len(want)
    for g, (c, loc, text) in zip(got, want):
        code, _, m = g.partition("|")
        code = code.replace("MessageCode.", "").replace("ErrorCode.", "")
        ok = ok and code == c and m.startswith(loc) and ": " + text in m
    ctx.check(ok, key + "messages passed to the logger", "%s: got %r, expected %r" % (what, got, want))


def printed(ctx, key, what, err, want):
    pos, ok = 0, True
    for c, loc, text in want:
        k = err.find(loc, pos)
        ok = ok and k >= 0 and text in err[k : k + 400]
        pos = k + 1
    n = len(re.findall(r"^\S*:\d+:[-\d:]+: (?:error|info|warning):", err, re.M))
    ctx.check(ok and n == len(want), key + "messages printed", "%s: got %r, expected %r" % (what, err, want))


def fill(x, i, inc):
    t = x.replace("INC", inc)
    return re.sub("%d", str(i), t).replace("%%", "%")


def op(kind, i, inc):
    text, a, g = ALPHA[kind]
    f = lambda ms: [(c, l, fill(t, i, inc)) for c, l, t in ms]
    return fill(text, i, inc), f(a), f(g)


def history(ctx, lang, i, n):
    err = Err()
    try:
        tmp = tempfile.TemporaryDirectory()
        inc = os.path.join(tmp.name, "inc.lp")
        with open(inc, "w") as f:
            f.write("inc.")
        I = sl.Interp(ctx, lang)
        kinds = list(ALPHA)
        depth = 4 if ctx.tier == "thorough" else 3
        hs = [h for k in (1, 2) for h in itertools.product(kinds, repeat=k)]
        hs += [h for k in range(3, depth + 1) for h in itertools.product(QUICK, repeat=k)]
        for h in sl.chunks(hs, i, n):
            for limit in LIMITS if len(h) < 3 or ctx.tier == "thorough" else LIMITS[2:]:
                one(ctx, I, err, lang, inc, h, limit, "add", tmp.name)
            if len(h) < 3:
                for how in ("load", "ast") if lang != "lua" else ("load",):
                    for limit in LIMITS:
                        one(ctx, I, err, lang, inc, h, limit, how, tmp.name)
    finally:
        err.close()


def one(ctx, I, err, lang, inc, h, limit, how, tmp):
    key = "%s: " % lang
    ctx.journal("%s %s history %s limit %r" % (lang, how, " ".join(h), limit))
    ctx.execs += 1
    I.do("reset")
    if limit == "d":
        I.ok("new", "")
    else:
        I.ok("new", "", limit)
    ref = Ref(limit)
    err.take()
    again = []  # global variables are reported by every ground call
    for j, kind in enumerate(h):
        text, add, ground = op(kind, j + 1, inc)
        # undefined atoms are reported once per location, so give each part its own columns
        pad = 40 * j if kind != "include" else 0
        text = " " * pad + text
        add = [(c, shift(l, pad), t) for c, l, t in add]
        ground = [(c, shift(l, pad), t) for c, l, t in ground]
        if kind == "include":
            if how == "ast":
                return  # included files are not part of syntax trees
            add = [(F, "2:1-", "warning: already included file:\n")]  # files are tracked per parsing operation
        place = "<block>"
        part = "p%d" % j
        if how == "add":
            cmds = ("add", part, "", text)
        elif how == "load":
            place = os.path.join(tmp, "f%d.lp" % j)
            with open(place, "w") as f:
                f.write("#program %s. %s" % (part, text))
            cmds = ("load", place)
        else:
            place = "<string>"
            cmds = ("addast", "late", "#program %s. %s" % (part, text))
        if how != "add":
            d = len("#program %s. " % part)
            add = [(c, shift(l, d), t) for c, l, t in add]
            ground = [(c, shift(l, d), t) for c, l, t in ground]
        if how == "ast" and kind == "theory":
            ground = [(c, "", t) for c, l, t in ground]  # locations of theory atoms differ when added as syntax trees
        at = lambda ms: [(c, "%s:%s" % (place, l) if l else "", t) for c, l, t in ms]
        add, ground = at(add), again + at(ground)
        # rewriting, checking, and grounding report in turn
        ground.sort(key=lambda m: 0 if m[0] == O and "/0" in m[2] or "definition" in m[2] else 1 if m[0] == G or "unsafe" in m[2] else 2)
        again = [m for m in ground if m[0] == G]
        for cmd, msgs in ((cmds, add), (("ground", part), ground)):
            r = I.do(*cmd)
            want, fails = ref.step(msgs) if not (how == "ast" and cmd is cmds and msgs) else Ref("d").step(msgs)
            ctx.transitions += len(want)
            if how == "ast" and cmd is cmds and msgs:
                I.do("msgs"), err.take()
                return  # parsed without the control's logger
            what = "%s in %r" % (cmd[0], h)
            got = I.do("msgs")
            e = err.take()
            if limit == "":
                printed(ctx, key, what, e, want)
                ctx.eq(key + "messages without logger", got, "", what)
            else:
                match(ctx, key, what, got, want)
                ctx.eq(key + "text printed despite a logger", e, "", what)
            ctx.check(r.startswith("E:") == fails, key + "operation with error", "%s: %s, expected %s" % (what, r[:200], "an error" if fails else "none"))
            if fails:
                return
        ctx.state((h[: j + 1], limit))
    r = I.solve("c")
    ctx.check(r is not None, key + "solving after messages", "%r" % (h,))
    ctx.eq(key + "messages while solving", (I.do("msgs"), err.take()), ("", ""), "%r" % (h,))
    ctx.nontrivial += 1


def shift(loc, d):
    m = re.fullmatch(r"1:(\d+)-(\d*)", loc)
    return loc if not m else "1:%d-%s" % (int(m.group(1)) + d, int(m.group(2)) + d if m.group(2) else "")


def parsing(ctx, lang):
    """Parsing functions with loggers of their own."""
    err = Err()
    try:
        tmp = tempfile.TemporaryDirectory()
        inc = os.path.join(tmp.name, "inc.lp")
        with open(inc, "w") as f:
            f.write("inc.")
        I = sl.Interp(ctx, lang)
        key = "%s: parsing: " % lang
        for text, ok in (("1", 1), ("f(a,1+2)", 1), ("p(", 0), ("1/0", 0), ("X", 0), ("\u00e4", 0), ("", 0)):
            for limit in LIMITS:
                ctx.journal("%s term %r limit %s" % (lang, text, limit))
                r = I.do("term", text, limit)
                ctx.check(r.startswith("E:") != bool(ok), key + "term", "%r: %s" % (text, r))
                ctx.check("Unicode" not in r, key + "term error", r)
                ctx.eq(key + "messages of a term", (I.do("msgs"), err.take()), ("", ""), text)
                ctx.execs += 1
        if lang == "lua":
            return
        for h in [h for k in (1, 2, 3) for h in itertools.product(ALPHA, repeat=k)]:
            for mode in ("str", "file"):
                ops = [op(k, j + 1, inc) for j, k in enumerate(h)]
                if "include" in h:
                    continue
                lines = "\n".join(o[0] for o in ops)
                want = [(c, l.replace("1:", "%s:%d:" % ("<string>" if mode == "str" else os.path.join(tmp.name, "x.lp"), j + 1), 1), t) for j, o in enumerate(ops) for c, l, t in o[1]]
                arg = lines
                if mode == "file":
                    arg = os.path.join(tmp.name, "x.lp")
                    with open(arg, "w") as f:
                        f.write(lines)
                for limit in LIMITS:
                    ctx.journal("%s parse %s %r limit %s" % (lang, mode, h, limit))
                    I.do("msgs")
                    err.take()
                    r = I.do("parse", mode, arg, limit)
                    w, fails = Ref(limit).step(want)
                    got, e = I.do("msgs"), err.take()
                    ctx.execs += 1
                    if limit == "":
                        printed(ctx, key, "%r" % (h,), e, w)
                        ctx.eq(key + "messages without logger", got, "", "%r" % (h,))
                    else:
                        match(ctx, key, "%r" % (h,), got, w)
                        ctx.eq(key + "text printed despite a logger", e, "", "%r" % (h,))
                    ctx.check(r.startswith("E:") == fails, key + "result", "%r: %s" % (h, r))
    finally:
        err.close()


def controls(ctx):
    """Two controls with loggers of their own in all interleavings of their operations."""
    import clingo

    kinds = ["atom", "op", "syntax", "unsafe", "ok"]
    for k1, k2 in itertools.product(kinds, repeat=2):
        for order in sorted(set(itertools.permutations("AAABBB"))):
            for l1, l2 in (("20", "20"), ("1", "3"), ("0", "1")):
                ctx.journal("two controls %s %s %s limits %s %s" % (k1, k2, "".join(order), l1, l2))
                logs = {"A": [], "B": []}
                cs, todo = {}, {}
                for x, k, l in (("A", k1, l1), ("B", k2, l2)):
                    text, a, g = op(k, 1, "")
                    cs[x] = clingo.Control([], lambda c, m, x=x: logs[x].append((c.name, m)), int(l))
                    todo[x] = [(lambda c, t=text: c.add("base", [], t), a), (lambda c: c.ground([("base", [])]), g), (lambda c: c.solve(), [])]
                refs = {"A": Ref(l1), "B": Ref(l2)}
                dead = set()
                for x in order:
                    f, msgs = todo[x].pop(0)
                    if x in dead:
                        continue
                    want, fails = refs[x].step(msgs)
                    try:
                        f(cs[x])
                        failed = False
                    except RuntimeError:
                        failed = True
                        dead.add(x)
                    y = "B" if x == "A" else "A"
                    ctx.eq("python: two controls: error", failed, fails, "")
                    ctx.eq("python: two controls: messages", [c for c, m in logs[x]], [w[0] for w in want], "")
                    ctx.eq("python: two controls: messages of the other control", logs[y], [], "")
                    del logs[x][:]
                    ctx.transitions += 1
                ctx.execs += 1


def many(ctx):
    """More messages than the default limit."""
    for lang in ("python", "c++", "lua"):
        I = sl.Interp(ctx, lang)
        for limit in ("d", "5", "20", "24", "25", "26", "100"):
            I.do("reset")
            ctx.journal("%s many messages limit %s" % (lang, limit))
            if limit == "d":
                I.ok("new", "")
            else:
                I.ok("new", "", limit)
            I.ok("add", "base", "", "".join("p(%d/0)." % i for i in range(25)))
            I.ok("ground", "base")
            ms = I.do("msgs").split("\x01")
            n = 20 if limit == "d" else min(25, int(limit))
            ctx.eq(lang + ": number of messages", len(ms), n, limit)
            ctx.eq(lang + ": messages", [re.search(r"\((\d+)/0\)", m).group(1) for m in ms], [str(x) for x in range(n)], limit)
            ctx.execs += 1


SIZES = list(range(1, 25)) + [31, 32, 33, 64, 65, 128, 129, 256, 257, 300]


def wide(ctx, lang):
    """Every number of messages with limits around it, and messages of every length."""
    I = sl.Interp(ctx, lang)
    key = "%s: " % lang
    for n in SIZES:
        for limit in dict.fromkeys(["d", "0", "1", str(n - 1), str(n), str(n + 1), "1000", "2147483647"]):
            what = "%d messages with limit %s" % (n, limit)
            ctx.journal("%s %s" % (lang, what))
            I.do("reset")
            I.ok("new", "", *([limit] if limit != "d" else []))
            I.ok("add", "base", "", "\n".join("p(%d/0)." % i for i in range(n)))
            ref = Ref(limit)
            want, _ = ref.step([(O, "<block>:%d:3-%d" % (i + 1, 5 + len(str(i))), "info: operation undefined:\n  (%d/0)\n" % i) for i in range(n)])
            I.ok("ground", "base")
            match(ctx, key, what, I.do("msgs"), want)
            ctx.execs += 1
            ctx.transitions += len(want)
            ctx.state((n, limit))
            # what is left of the limit holds for the next step
            I.ok("add", "next", "", "\n".join("q(%d/0)." % i for i in range(3)))
            want, _ = ref.step([(O, "<block>:%d:3-6" % (i + 1), "info: operation undefined:\n  (%d/0)\n" % i) for i in range(3)])
            I.ok("ground", "next")
            match(ctx, key, what + ", then three", I.do("msgs"), want)
        for x in ("x" * n, "f(%s)" % ",".join(["1"] * n), '"%s"' % ("\u00e4" * n)):
            what = "message about %s" % x
            ctx.journal("%s %s" % (lang, what))
            t = "p(%s/0)." % x
            I.do("reset")
            I.ok("new", "", "5")
            I.ok("add", "base", "", t)
            I.ok("ground", "base")
            ctx.execs += 1
            got = I.do("msgs")
            ctx.check(got.endswith("info: operation undefined:\n  (%s/0)\n" % x) and "|<block>:1:3-" in got, key + "messages passed to the logger", "%s: %r" % (what, got))


def tasks(tier):
    out = []
    for lib in ("sys", "eng"):
        for lang in ("python", "c++", "lua"):
            k = 2 if tier == "quick" else 4
            out += [Py("history", lang, i, k, lib=lib, name="history-%s-%s-%d" % (lang, lib, i)) for i in range(k)]
            out.append(Py("parsing", lang, lib=lib, name="parsing-%s-%s" % (lang, lib)))
        out.append(Py("controls", lib=lib, name="controls-" + lib))
        out.append(Py("many", lib=lib, name="many-" + lib))
    out += [Py("wide", l, lib=b, name="wide-%s-%s" % (l, b)) for l in ("python", "c++", "lua") for b in ("sys", "eng")]
    return out
