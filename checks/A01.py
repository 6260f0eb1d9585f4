"""A01: parsing, printing and rebuilding syntax trees preserves the program."""
import itertools
import os
import re
import tempfile

from checks import astlib
from checks.astlib import PyAst, CppAst, parse_dump, statements
from checks.solvelib import Interp, chunks
from vplib import Py

PID = "A01"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of the statements of a grammar; each taken through parse, print, reparse and all ways of rebuilding, with equal trees and equal ground programs demanded"
NOTE = "About 3 500 statements (thorough: 17 000, terms nested to depth 2) covering every node type, optional part and enumeration value: number of trees, equality of the tree with the tree of its printed text, node locations against the text, agreement of Python and C++; each statement in a program with facts added as text and through the builder (as parsed, collected, copied, deep-copied, rewritten, unpooled, printed and parsed again) with the same statements and messages reported for the ground program; statements with parts of 4 to 300 elements or 129 levels; all sequences of up to two (thorough three) statement kinds, from strings, files, several files and included files, each delivered exactly once in order."
RULE = ""
BUILD = ["sys/py/_clingo.so", "eng/py/_clingo.so", "sys/drv/cppast", "eng/drv/cppast", "sys/drv/icpp", "eng/drv/icpp"]
ASSUMPTIONS = ["the installed library 5.6.2 prints '#show.' and empty conditions so that they cannot be parsed again; and drops negated comparisons added through the builder; these statements are checked with the library built from the sources only"]

BASE = "#program base."
EMPTYCOND = re.compile(r":(?=[.;}|\]]|\s*$)|:-?(?=\.)")


def lang_ast(lang):
    return PyAst() if lang == "python" else CppAst()


def do(ctx, x, *c):
    r = x.do(*c)
    if r.startswith("crash"):
        ctx.fail("%s: parser crashes" % type(x).__name__, "%r: %s" % (c, r))
    return r


def parsed(r):
    return [tuple(z.split("\x04")) for z in r.split("\x03")]


def norm(d):
    return parse_dump(d).dump(False)


SIZES = list(range(4, 18)) + [31, 32, 33, 63, 64, 65, 128, 129, 256, 257, 300]


def wides(sizes):
    """Statements with parts of every size, and their number."""
    out = []
    for n in sizes:
        c = ["c%d" % i for i in range(n)]
        v = [str(i) for i in range(n)]
        d = min(n, 129)
        ops = [(("+-*/&?"[i % 6] + "<>!"[i // 6 % 3]) * (i // 18 + 1), i) for i in range(n)]
        one = [
            "a:-%s." % ",".join(c), "a:-%s." % ";".join("not " + z for z in c), "{%s}." % ";".join(c), "%s." % ";".join(c), "p(%s)." % ",".join(v), "p(%s):-c(1)." % ";".join(v),
            "p(%s)." % ("f(" * d + "1" + ")" * d), "p(%s)." % "+".join(v), "p(%s1)." % ("-" * d), 'p("%s").' % ("x" * n), "%s." % ("y" * n), "p((%s))." % ",".join(v), "p(X):-X=(%s)." % ";".join(v),
            "a:-#sum{%s}>1." % ";".join("%s,x:%s" % z for z in zip(v, c)), "a:-1{%s}." % ";".join("%s:c(1)" % z for z in c), "#count{%s}=1." % ";".join("%s:%s:c(1)" % z for z in zip(v, c)),
            ":~c(1).[1@2,%s]" % ",".join(v), "a:-c(X),%s." % ",".join("X!=" + z for z in v), "a:-c(Y):%s." % ",".join(c), "a:-%s<=X,c(X)." % "<=".join(["0"] * min(n, 65)),
            "&t{%s:%s}=2." % (",".join(v), ",".join(c)), "&t{%s}=2." % ";".join(v), "&t{1%s}=2." % "".join("+" + z for z in v), "&t{f(%s)}." % ",".join(v), "#program x(%s)." % ",".join(c),
            "%sa." % ("\n" * n), "%*s" % (n + 2, "a."), "#theory th{u{%s};&t/0:u,{=},u,any}." % ";".join("%s :%d,binary,left" % z for z in ops[:129]),
            "#theory th{u{};&t/0:u,{%s},u,any}." % ",".join(z[0] for z in ops), "#script(python)%s#end." % ("#x\n" * n), "#external e:%s.[true]" % ",".join(c),
        ]  # fmt: skip
        out += [(t, 1) for t in one]
        out += [("#edge(%s)." % ";".join("%s,0" % z for z in v), n), ("#minimize{%s}." % ";".join("%s@1,x:%s" % z for z in zip(v, c)), n), ("".join("%s." % z for z in c), n), ("a.%%%s\nb." % ("z" * n), 2 if astlib.OLD else 3)]
    return out


def wide(ctx, lang):
    x = lang_ast(lang)
    for t, want in wides(SIZES):
        trip(ctx, x, lang, t, want)
    reworked(ctx, lang, [t for t, _ in wides((7, 33, 129))])


def roundtrip(ctx, lang, i, n):
    x = lang_ast(lang)
    for t, want in chunks(statements(1 if ctx.tier == "quick" else 2), i, n):
        trip(ctx, x, lang, t, want)


def trip(ctx, x, lang, t, want):
    for _ in range(1):
        ctx.journal("%s parse %r" % (lang, t))
        ctx.execs += 1
        ctx.state(t)
        r = do(ctx, x, "parse", t)
        if not ctx.check(r != "error" and not r.startswith(("E", "crash")), "%s: statement is not parsed" % lang, "%r: %s" % (t, r[:100])):
            continue
        r = parsed(r)
        ctx.eq("%s: number of trees" % lang, len(r), want + 1, repr(t))
        ctx.eq("%s: first tree" % lang, (parse_dump(r[0][0]).t, r[0][1]), ("Program", BASE), repr(t))
        for d, s in r[1:]:
            ctx.transitions += 1
            if astlib.OLD and (re.search(r":[.;}|]", t) or s.startswith("#show /0") or re.search(r":([.;}|]|\s*[<>=!]|\s*$)", s)):
                continue
            r2 = do(ctx, x, "parse", s)
            if not ctx.check(r2 != "error" and not r2.startswith(("E", "crash")), "%s: printed text is not parsed" % lang, "%r prints as %r" % (t, s)):
                continue
            r2 = parsed(r2)
            ctx.eq("%s: trees of the printed text" % lang, len(r2), 2, "%r prints as %r" % (t, s))
            ctx.eq("%s: tree of the printed text" % lang, norm(r2[1][0]), norm(d), "%r prints as %r" % (t, s))
            ctx.eq("%s: text of the reparsed tree" % lang, r2[1][1], s, "%r" % t)


def substr(lines, l):
    f, bl, bc, _, el, ec = l
    if not (1 <= bl <= el <= len(lines) and bc >= 1 and ec >= 1 and (bl, bc) <= (el, ec) and bc <= len(lines[bl - 1]) + 1 and ec <= len(lines[el - 1]) + 1):
        return None
    if bl == el:
        return lines[bl - 1][bc - 1 : ec - 1]
    return "\n".join([lines[bl - 1][bc - 1 :]] + lines[bl : el - 1] + [lines[el - 1][: ec - 1]])


def locations(ctx, i, n):
    """Locations point at the text of statements and terms; Python and C++ see the same."""
    x, y = PyAst(), CppAst()
    pre = "z. z:-\n\n   z.  "
    for t, want in chunks(statements(1), i, n):
        text = pre + t
        ctx.journal("locations %r" % text)
        ctx.execs += 1
        r = do(ctx, x, "parse", text)
        r2 = do(ctx, y, "parse", text)
        ctx.eq("python and C++ parse alike", r2, r, repr(t))
        if r == "error":
            continue
        r = parsed(r)
        lines = text.split("\n")
        texts = [substr(lines, parse_dump(r[k][0]).a["location"][:6]) if k < len(r) else None for k in (1, 2)]
        ctx.eq("location of statements", texts, ["z.", "z:-\n\n   z."], repr(text))
        for d, s in r[3:]:
            d = parse_dump(d)
            ctx.transitions += 1
            st = substr(lines, d.a["location"])
            if d.t == "Minimize" and t.startswith("#m"):
                ctx.check(st and st in t, "location of statements", "%r: %r" % (t, st))
            else:
                ctx.eq("location of statements", st, t, repr(text))

            def go(m, par):
                l = m.a.get("location")
                if l is not None:
                    s = substr(lines, l)
                    ctx.check((s is not None or astlib.OLD and "not" in t) and l[0] == "<string>" and l[3] == "<string>", "location lies in the text", "%s of %r: %r" % (m.t, text, l))
                    if m.t == "Variable":
                        ctx.eq("location of a variable", s, m.a["name"], repr(text))
                    elif m.t == "SymbolicTerm" and not (par in ("Minimize", "Heuristic", "External") and s != str(m.a["symbol"])):
                        ctx.check(s == m.a["symbol"] or s == "(%s)" % m.a["symbol"], "location of a constant", "%r in %r" % ((s, m.a["symbol"]), text))
                for c in m.children():
                    go(c, m.t)

            go(d, None)


FACTS = "{q(1);q(a)}. q(f(2)). r:-q(1). b. d:-not e. {p;c;e}. #program base."
GUARD = "#program base. "


def groundable(t):
    """A program around the statement; theory atoms need a definition."""
    pre = FACTS
    if "&t" in t and "#theory" not in t:
        pre += " #theory th{x{- :3,unary;not:3,unary;+ :2,binary,left;* :2,binary,left;<= :1,binary,left;<? :3,unary;?> :1,binary,left};&t/0:x,{<=,=,!=,<>},x,any;&t/1:x,{<=,=,!=,<>},x,any;&t/2:x,{<=,=,!=,<>},x,any}."
    return pre, t


def rebuild(ctx, lang, i, n):
    reworked(ctx, lang, [t for t, _ in chunks(statements(1), i, n)])


def reworked(ctx, lang, texts):
    it = Interp(ctx, lang)
    modes = ["direct", "late", "copy", "deep", "trans", "print", "unpool"]

    def run(mode, pre, t):
        it.do("reset")
        it.do("new", "")
        it.do("obs", "1")
        it.ok("add", "base", "", pre)
        out = [it.do("add", "base", "", t) if mode == "text" else it.do("addast", mode, t)]
        out.append(it.do("ground", "base;x"))
        log = [re.sub(r"\[([^\]]*)\]", lambda z: str(sorted(z.group(1).split(","))), o) if o.startswith("rule") else o for o in it.do("obslog").split("\x01")]
        msgs = it.do("msgs").split("\x01")
        bad = out[1].startswith("E:")
        return ["E" if o.startswith("E:") else o for o in out] + ([] if bad else [log]), msgs, bad

    for t in texts:
        if t.startswith(("#script (python) x", "#script (lua) x")) or "\ncode\n" in t:
            continue
        if astlib.OLD and re.search(r"not [1X][<>=!]", t):
            continue  # dropped when added through the builder of 5.6.2
        pre, t = groundable(t)
        ctx.journal("%s rebuild %r after %r" % (lang, t, pre))
        ctx.state(t)
        want, wmsg, bad = run("text", pre, t)
        ctx.nontrivial += not bad
        for m in modes:
            if m == "print" and (bad or t.startswith("#show.") or astlib.OLD and re.search(r":\s*([.;}|<>=!]|$)", t)):
                continue
            if m == "unpool" and (bad or ";" in t):
                continue
            got, gmsg, _ = run(m, pre, t)
            ctx.execs += 1
            ctx.transitions += 4
            ctx.eq("%s: program rebuilt (%s) differs from its text" % (lang, m), got, want, "%r" % t)
            if m in ("direct", "late", "copy", "deep"):
                gmsg, wmsg2 = [[y.split("|")[0] for y in z] for z in (gmsg, wmsg)]
                ctx.eq("%s: messages of a program rebuilt (%s)" % (lang, m), gmsg, wmsg2, "%r" % t)


KINDS = ["a.", "b(X):-c(X),\n  not d.", "#show a/1.", "#show X:c(X).", ":~c(X).[X@1,2]", "#minimize{1:a;2,X:c(X)}.", "#const k=1.", "#external e:c(1).[true]", "#program x(t).", "&t{1:a}=2.", "#theory th{u{};&t/0:u,{=},u,any}.", "#edge(1,2;2,3).", "#heuristic a.[1@2,sign]", "#project a/0.", "#script (python)\nx=1\n#end.", "#defined f/2.", "{a;b:c}."]


def order(ctx, lang, i, n):
    """Sequences of statements from strings, files, several files and included files."""
    x = lang_ast(lang)
    one = {}
    for k in KINDS:
        r = do(ctx, x, "parse", k)
        if not ctx.check(r not in ("error", "E"), "%s: statement is not parsed" % lang, k):
            return
        one[k] = [(norm(d), s) for d, s in parsed(r)[1:]]
    base = [(norm(d), s) for d, s in parsed(do(ctx, x, "parse", ""))]
    ctx.eq("%s: empty program" % lang, [s for _, s in base], [BASE], "")
    depth = 2 if ctx.tier == "quick" else 3

    def check(got, want, what):
        ctx.execs += 1
        if not ctx.check(got not in ("error", "E") and not got.startswith("crash"), "%s: program is not parsed" % lang, what):
            return None
        got = parsed(got)
        ctx.transitions += len(got)
        ctx.eq("%s: statements delivered" % lang, [s for _, s in got], [s for _, s in want], what)
        ctx.eq("%s: trees delivered" % lang, [norm(d) for d, _ in got], [d for d, _ in want], what)
        return [parse_dump(d).a["location"] for d, _ in got]

    with tempfile.TemporaryDirectory() as tmp:
        def write(name, text):
            f = os.path.join(tmp, name)
            with open(f, "w") as o:
                o.write(text)
            return f

        for seq in chunks(list(itertools.chain(*(itertools.product(KINDS, repeat=d) for d in range(1, depth + 1)))), i, n):
            ctx.journal("%s statements %r" % (lang, seq))
            want = base + [z for k in seq for z in one[k]]
            for sep in (" ", "\n\n") if len(seq) < 3 else ("\n",):
                check(do(ctx, x, "parse", sep.join(seq)), want, "string %r" % (seq,))
            f = write("a.lp", "\n".join(seq) + "\n")
            locs = check(do(ctx, x, "files", f), want, "file %r" % (seq,))
            if locs:
                ctx.eq("%s: file of a location" % lang, {(l[0], l[3]) for l in locs[1:]}, {(f, f)}, repr(seq))
            # the first part in one file, the rest in a second one
            if len(seq) > 1:
                fs = [write("b%d.lp" % j, k + "\n") for j, k in enumerate(seq)]
                r = do(ctx, x, "files", *fs)
                if ctx.check(r not in ("error", "E") and not r.startswith("crash"), "%s: files are not parsed" % lang, repr(seq)):
                    ctx.execs += 1
                    got = [(parse_dump(d).a["location"][0], (norm(d), s)) for d, s in parsed(r)]
                    for j, k in enumerate(seq):
                        ctx.eq("%s: statements of several files" % lang, [z for f, z in got if f == fs[j] and z[1] != BASE], one[k], repr(seq))
                    runs = [f for f, z in got if z[1] != BASE]
                    ctx.eq("%s: files are kept apart" % lang, sorted(f for f, _ in itertools.groupby(runs)), sorted(fs), repr(seq))
                    ctx.check(got[0][1][1] == BASE, "%s: first tree" % lang, repr(seq))
                # included: the including file's statements come first, then the included ones
                inc = write("c.lp", '%s\n#include "b1.lp".\n%s\n' % (seq[0], seq[-1]))
                r = do(ctx, x, "files", inc)
                if ctx.check(r not in ("error", "E"), "%s: program with include is not parsed" % lang, repr(seq)):
                    ctx.execs += 1
                    got = [(norm(d), s) for d, s in parsed(r) if s != BASE]
                    w3 = [z for k in (seq[0], seq[1], seq[-1]) for z in one[k]]
                    ctx.eq("%s: statements of a file with include" % lang, sorted(got), sorted(w3), repr(seq))
                    own = [(norm(d), s) for d, s in parsed(r) if parse_dump(d).a["location"][0] == inc and s != BASE]
                    ctx.eq("%s: order of statements around an include" % lang, own, one[seq[0]] + one[seq[-1]], repr(seq))
        # two inclusions of the same file deliver it once
        if i == 0:
            b1 = write("b1.lp", "a. b.\n")
            for text, what in (('#include "b1.lp".\n#include "b1.lp".\nc.\n', "twice"), ('#include "c.lp".\nc.\n', "itself")):
                inc = write("c.lp", text)
                r = do(ctx, x, "files", inc)
                ctx.execs += 1
                if ctx.check(r not in ("error", "E"), "%s: file including a file %s" % (lang, what), r):
                    ctx.eq("%s: file including a file %s" % (lang, what), sorted(s for _, s in parsed(r) if s != BASE), ["a.", "b.", "c."] if what == "twice" else ["c."], "")
            r = do(ctx, x, "files", os.path.join(tmp, "missing.lp"))
            ctx.check(r in ("error", "E"), "%s: missing file accepted" % lang, r)
            for t in ("a", "a:-", "a.b", "p(.", "#show", "a. ;"):
                ctx.check(do(ctx, x, "parse", t) in ("error", "E"), "%s: syntax error accepted" % lang, t)
                ctx.check(do(ctx, x, "files", write("d.lp", t)) in ("error", "E"), "%s: syntax error in a file accepted" % lang, t)
                ctx.eq("%s: parsing after a syntax error" % lang, [s for _, s in parsed(do(ctx, x, "parse", "a."))], [BASE, "a."], t)


def tasks(tier):
    out = []
    for lib in ("eng", "sys"):
        for l in ("python", "c++"):
            k = 2 if tier == "quick" else 6
            out.append(Py("wide", l, lib=lib, name="wide-%s-%s" % (l, lib)))
            out += [Py("roundtrip", l, i, k, lib=lib, name="roundtrip-%s-%s-%d" % (l, lib, i)) for i in range(k)]
            k = 3
            out += [Py("rebuild", l, i, k, lib=lib, name="rebuild-%s-%s-%d" % (l, lib, i)) for i in range(k)]
            k = 1 if tier == "quick" else 4
            out += [Py("order", l, i, k, lib=lib, name="order-%s-%s-%d" % (l, lib, i)) for i in range(k)]
        out += [Py("locations", i, 2, lib=lib, name="locations-%s-%d" % (lib, i)) for i in range(2)]
    return out
