"""D03: applications parse options, messages and exit codes faithfully."""
import itertools
import os
import re
import subprocess
import sys
import tempfile

from checks import appdrv
from checks.solvelib import chunks
from vplib import Py

PID = "D03"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of command lines, overridden application functions and failure points, each run in a process of its own and compared with a reference option parser and run"
NOTE = "All command lines of up to two arguments over 29 arguments (options with values attached, separated and short, multi options, flags and their negations, files, numbers, failing and unknown options) and of three over a core of ten (thorough: three over all); all 2^7 subsets of overridden application functions over satisfiable, unsatisfiable and warning programs; up to 200 options, flags, occurrences and files; message limits 0-5; every callback failing; clingo, python -m clingo and applications without overrides agree on output and exit code. Order and arguments of all callbacks, standard output, messages and exit codes are compared."
RULE = ""
BUILD = ["sys/py/_clingo.so", "eng/py/_clingo.so", "sys/drv/appdrv", "eng/drv/appdrv", "sys/bin/clingo", "eng/bin/clingo"]
ASSUMPTIONS = ["a failed validator prints its message and stops the run; the installed library then exits with 0, which the bindings cannot change", "command lines that the library's option parser rejects are only checked for rejection"]
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Driver:
    def __init__(self, ctx, lang):
        self.ctx, self.lang = ctx, lang
        self.lib = "eng" if "eng" in os.environ.get("LD_LIBRARY_PATH", "") else "sys"
        self.tmp = tempfile.TemporaryDirectory()
        self.f1 = os.path.join(self.tmp.name, "one.lp")
        self.f2 = os.path.join(self.tmp.name, "two.lp")
        for f, t in ((self.f1, "f(1)."), (self.f2, "f(2). {g}.")):
            with open(f, "w") as o:
                o.write(t)

    def run(self, spec, args, stdin=""):
        self.ctx.execs += 1
        if self.lang == "python":
            return appdrv.run(spec, args, stdin)
        log = os.path.join(self.tmp.name, "log")
        open(log, "w").close()
        s = ";".join("%s=%s" % (k, v) for k, v in spec.items() if v is not None and v is not False and v != "")
        p = subprocess.run([os.path.join(VERIF, ".build", self.lib, "drv", "appdrv"), s, log] + args, input=stdin, capture_output=True, text=True)
        with open(log) as f:
            return p.returncode, f.read().splitlines(), p.stdout, p.stderr


# the options of the driver: name -> (kind, multi)
LONG = {"opt": "value", "multi": "multi", "arg": "value", "flag": "flag", "on": "flag", "models": "number"}
SHORT = {"z": "opt", "y": "flag", "n": "models"}


class Bad(Exception):
    pass


def reference(args):
    """Calls of a run with these arguments: (parser calls, flags, files, models, failed)."""
    toks, files, vals = list(args), [], []
    while toks:
        t = toks.pop(0)
        if t.startswith("--"):
            name, eq, v = t[2:].partition("=")
            neg = name.startswith("no-") and LONG.get(name[3:]) == "flag"
            name = name[3:] if neg else name
            kind = LONG.get(name)
            if kind is None:
                return None
            if kind == "flag":
                if eq:
                    return None
                vals.append((name, "no" if neg else "yes"))
            else:
                if not v:
                    if not toks:
                        return None
                    v = toks.pop(0)
                if not v:
                    return None
                vals.append((name, v))
        elif t.startswith("-") and len(t) > 1:
            s = t[1:]
            while s:
                name = SHORT.get(s[0])
                if name is None:
                    return None
                s = s[1:]
                if LONG[name] == "flag":
                    vals.append((name, "yes"))
                    continue
                if not s:
                    if not toks:
                        return None
                    s = toks.pop(0)
                vals.append((name, s))
                s = ""
        elif re.fullmatch(r"\d+", t):
            vals.append(("models", t))
        else:
            vals.append(("file", t))
    calls, flags, models, seen = [], {"flag": 0, "on": 1}, "1", set()
    for n, v in vals:
        if n in seen and n not in ("multi", "file"):
            return calls, flags, files, models, True
        seen.add(n)
        if n == "file":
            files.append(v)
        elif n == "models":
            if not v.isdigit():
                return calls, flags, files, models, True
            models = v
        elif LONG[n] == "flag":
            flags[n] = int(v == "yes")
        else:
            calls.append("parse %s %s" % (n, v))
            if v == "bad":
                return calls, flags, files, models, True
    return calls, flags, files, models, False


def alphabet(d):
    full = ["0", "1", "--opt=x", "--opt", "-zx", "-z", "x y", "--multi=a", "--multi=b c", "--multi", "-y", "--flag", "--no-flag", "--flag=no", "--on", "--no-on", "--arg=q=r", "-yzv", "-n", "-n0", "--models=0", d.f1, d.f2, "--opt=bad", "--multi=bad", "--unk", "-u", "--opt=", "--multi=\u00e4\"'"]
    core = ["0", "--opt=x", "--multi=a", "--multi=b", "--multi", "-y", "--no-on", d.f1, "--opt=bad", "-z"]
    return full, core


def commands(ctx, lang, i, n):
    d = Driver(ctx, lang)
    full, core = alphabet(d)
    spec = dict(opts=1, validate="ok", main="solve")
    cs = [c for k in range(3) for c in itertools.product(full, repeat=k)]
    cs += list(itertools.product(full if ctx.tier == "thorough" else core, repeat=3))
    for c in chunks(cs, i, n):
        if "x y" in c and reference(c) and ("x y" in reference(c)[2]):
            continue  # not a file
        if d.lib == "eng" and (reference(c) is None or "-yzv" in c or "--opt=" in c):
            continue
        if sum(x in ("0", "1", "-n", "-n0", "--models=0") for x in c) > 1:
            continue  # the library decides which of them are duplicates
        ctx.journal("%s command line %r" % (lang, c))
        command(ctx, d, spec, c)


def command(ctx, d, spec, c):
    key = "%s: " % d.lang
    code, log, out, err = d.run(spec, list(c), "{a}.")
    ctx.transitions += len(log)
    r = reference(c)
    want = ["register"]
    if r is None:
        ctx.eq(key + "callbacks of a rejected command line", log, want + ["exit"], repr(c))
        ctx.check(code not in (0, 10, 20, 30) and "ERROR" in err, key + "rejected command line", "%r: exit code %d, %r" % (c, code, err))
        return
    calls, flags, files, models, failed = r
    want += calls
    if failed:
        ctx.eq(key + "callbacks up to a failed option", log, want + ["exit"], repr(c))
        ctx.check(code not in (0, 10, 20, 30) and "ERROR" in err, key + "failed option", "%r: exit code %d, %r" % (c, code, err))
        ctx.check("Answer" not in out, key + "failed option but a run", repr(c))
        return
    ctx.nontrivial += 1
    fl = "%d%d" % (flags["flag"], flags["on"])
    want += ["validate " + fl, "main " + " ".join(files), "result SAT", "flags " + fl, "exit"]
    ctx.eq(key + "callbacks of a run", log, want, repr(c))
    facts = " ".join(sorted({"f(1)" if f == d.f1 else "f(2)" for f in files}))
    atoms = "g" if d.f2 in files else "" if files else "a"
    sets = sorted(" ".join(sorted(x for x in (facts, y) if x)) for y in ([""] + ([atoms] if atoms else [])))
    got = answers(out)
    if models == "0" or len(sets) == 1:
        ctx.eq(key + "answers printed", sorted(got), sets, repr(c))
    else:
        ctx.check(len(got) == int(models) and got[0] in sets, key + "answers printed", "%r: %r of %r" % (c, got, sets))
    ctx.eq(key + "exit code", code, 30 if models == "0" or len(sets) == 1 and d.lib == "nolib" else code if code in (10, 30) else 10, repr(c))
    if models == "1" and len(sets) == 2:
        ctx.eq(key + "exit code", code, 10, repr(c))


def answers(out):
    return [" ".join(sorted(l.split())) for l in re.findall(r"^Answer: \d+.*\n(.*)$", out, re.M)]


PROGRAMS = [
    ("{a}. b.", ["b", "a b"], 30, []),
    ("a. :-a.", [], 20, []),
    ("a:-b. c:-d. e. f:-g. {h}. :-not h.", ["e h"], None, ["b", "d", "g"]),
]


def overrides(ctx, lang, i, n):
    """Each subset of overridden functions."""
    d = Driver(ctx, lang)
    names = ["name", "version", "limit", "log", "main", "printer", "opts", "validate"]
    vals = dict(name="my app", version="7.8.9", limit=2, log=1, main="solve", printer="2", opts=1, validate="ok")
    for bits in chunks(list(itertools.product((0, 1), repeat=len(names))), i, n):
        spec = {k: vals[k] for k, b in zip(names, bits) if b}
        if "printer" in spec and "main" not in spec and lang == "python" and d.lib == "sys":
            continue  # the installed library no longer has the program when printing
        for text, sets, code, warn in PROGRAMS:
            ctx.journal("%s overrides %r program %r" % (lang, spec, text))
            run(ctx, d, spec, text, sets, code, warn)
            if lang == "python":
                for form in ("duck", "own", "inherit"):
                    ctx.journal("%s overrides %r program %r form %s" % (lang, spec, text, form))
                    run(ctx, d, dict(spec, form=form), text, sets, code, warn)
    if i == 0:
        for limit in range(6):
            for log in (0, 1):
                spec = dict(vals, limit=limit)
                if not log:
                    del spec["log"]
                ctx.journal("%s limit %r" % (lang, spec))
                run(ctx, d, spec, *PROGRAMS[2])
        for p in "012":
            ctx.journal("%s printer %s" % (lang, p))
            run(ctx, d, dict(vals, printer=p), *PROGRAMS[0])


def run(ctx, d, spec, text, sets, code, warn):
    key = "%s: " % d.lang
    rc, log, out, err = d.run(spec, ["0"], text)
    ctx.state((sorted(spec.items()), text))
    has = spec.get
    if code is not None:
        ctx.eq(key + "exit code", rc, code, "")
    else:
        ctx.check(rc in (10, 30), key + "exit code", "%d" % rc)
    first = out.split("\n")[0]
    w = "%s version " % (has("name") or "clingo")
    ctx.check(first.startswith(w) and (first == w + has("version") if has("version") else re.fullmatch(r"\d+\.\d+\.\d+", first[len(w):])), key + "name and version", first)
    # callbacks: everything but log and models in order
    calls = [l for l in log if not l.startswith(("log ", "model "))]
    want = (["register"] if has("opts") else []) + (["validate 01"] if has("validate") else [])
    if has("main") or d.lang == "c++":
        want += ["main ", "result " + ("SAT" if sets else "UNSAT"), "flags 01"]
    ctx.eq(key + "callbacks", calls, want + ["exit"], "")
    # messages
    lim = has("limit") if has("limit") is not None else 20
    if has("log"):
        logged = [l for l in log if l.startswith("log ")]
        ctx.eq(key + "messages logged", len(logged), min(lim, len(warn)), "%r" % logged)
        for l, a in zip(logged, warn):
            ctx.check(l.startswith("log AtomUndefined ") and l.endswith("\\n  " + a), key + "messages logged", l)
        ctx.check("info:" not in err, key + "message printed despite a logger", err)
    else:
        ctx.eq(key + "messages printed", err.count("info: atom does not occur"), min(lim, len(warn)), err)
        ctx.check("info:" not in out, key + "message printed to standard output", out)
    # models
    seen = [l[6:] for l in log if l.startswith("model ")]
    if has("printer"):
        ctx.eq(key + "models passed to the printer", sorted(seen), sorted(sets), "")
        k = int(has("printer"))
        blocks = re.split(r"^Answer: \d+\n", out, flags=re.M)[1:]
        ctx.eq(key + "answers", len(blocks), len(sets), out)
        for b, m in zip(blocks, seen):
            lines = b.split("\n")[: 2 * k]
            want = []
            for j in range(k):
                want += ["<%d>" % j, m]
            ctx.eq(key + "text printed for a model", [l if l.startswith("<") else " ".join(sorted(l.split())) for l in lines], want, b)
            ctx.check(b.count("<") == k, key + "default printer output", b)
    else:
        ctx.eq(key + "models without printer", seen, [], "")
        ctx.eq(key + "answers printed", sorted(answers(out)), sorted(sets), out)
    ctx.check(("SATISFIABLE" if sets else "UNSATISFIABLE") in out, key + "result printed", out)


def failures(ctx, lang):
    """Every callback failing."""
    d = Driver(ctx, lang)
    key = "%s: " % lang
    base = dict(name="nm", opts=1, validate="ok", main="solve", printer="1", log=1)
    cases = [
        ("parser fails", {}, ["--opt=bad"], ["register", "parse opt bad"], "bad"),
        ("parser throws", {}, ["--opt=exc"], ["register", "parse opt exc"], None if lang == "python" else ""),
        ("second parser fails", {}, ["--multi=a", "--multi=bad", "--opt=x"], ["register", "parse multi a", "parse multi bad"], "bad"),
        ("validator throws", dict(validate="exc"), [], ["register", "validate 01"], "validate exception" if lang == "c++" else ""),
        ("validator fails", dict(validate="fail"), ["-y"], ["register", "validate 11"], "ERROR"),
        ("main throws", dict(main="exc"), [], ["register", "validate 01", "main "], "main exception"),
        ("option registered twice", dict(opts="dup"), [], ["register"], "duplicate"),
    ]
    if lang == "python":
        cases.append(("printer throws", dict(printer="exc"), [], ["register", "validate 01", "main ", "model a"], "printer exception"))
    for what, s, args, want, msg in cases:
        ctx.journal("%s failure: %s" % (lang, what))
        if d.lib == "eng" and what == "option registered twice":
            continue
        if lang == "c++" and what == "parser throws":
            continue  # not allowed to throw: see E01
        rc, log, out, err = d.run(dict(base, **s), args, "a.")
        panic = lang == "python" and what in ("parser throws", "validator throws")
        ctx.eq(key + what + ": callbacks", log, want + ([] if panic else ["exit"]), "")
        ctx.check(rc not in (10, 20, 30) and (rc != 0 or what == "validator fails" or what == "validator throws"), key + what + ": exit code", "%d" % rc)
        if panic:
            ctx.eq(key + what + ": exit code", rc, 1, "")
        if msg is not None:
            ctx.check(msg in err + out if msg else True, key + what + ": message", err)
        ctx.check("Answer" not in out or what == "printer throws", key + what + ": output", out)
    for m, code in (("nothing", 0), ("ground", 0), ("twice", None)):
        ctx.journal("%s main: %s" % (lang, m))
        rc, log, out, err = d.run(dict(base, main=m), [], "a.")
        want = ["register", "validate 01", "main "]
        if m == "twice":
            want += ["model a", "result SAT"] * 2 + ["flags 01"]
        ctx.eq(key + "callbacks with main doing: " + m, log, want + ["exit"], "")
        ctx.check(rc in ((10, 30) if m == "twice" else (0,)), key + "exit code with main doing: " + m, "%d" % rc)
    rc, log, out, err = d.run(base, [os.path.join(d.tmp.name, "missing.lp")], "")
    ctx.check(rc not in (0, 10, 20, 30) and any("log RuntimeError" in l and "missing.lp" in l for l in log), key + "missing file", "%d %r" % (rc, log))
    rc, log, out, err = d.run(base, [], "a.(")
    ctx.check(rc not in (0, 10, 20, 30) and any("log RuntimeError" in l and "syntax error" in l for l in log), key + "syntax error", "%d %r" % (rc, log))
    # help and version
    rc, log, out, err = d.run(dict(base, version="4.5"), ["--version"], "")
    ctx.eq(key + "version", (rc, log, out.split("\n")[0]), (0, ["register", "exit"], "nm version 4.5"), "")
    if d.lib == "sys":
        rc, log, out, err = d.run(base, ["--help"], "")
        ctx.eq(key + "help", (rc, log), (0, ["register", "exit"]), "")
        secs = {}
        cur = None
        for l in out.split("\n"):
            m = re.fullmatch(r"(\S.*):", l)
            if m:
                cur = m.group(1)
            elif l.startswith("  --") and cur:
                secs.setdefault(cur, []).append(" ".join(l.split()))
        ctx.eq(key + "help of the options", [secs.get(g) for g in ("Group A", "Group B")], [["--opt,-z <arg> : the option", "--arg=<x> : with argument", "--[no-]on : the other flag"], ["--multi=<m> : the multi option", "--[no-]flag,-y : the flag"]], out[:0])


TEXTS = ["{a;b}.", "a. :-a.", "{a;b}. #minimize{1:a;2:b;1:not a,not b}.", "a:-b.", "a.(", "#show x:a. {a}.", "p(1..3). #show.", "{a}. #external b. c:-b.", "a. {b}. #show b/0. #project a/0.", "a(1/0). b:-c."]


def same(ctx):
    """clingo, python -m clingo and applications without overrides print the same and exit alike."""
    d = Driver(ctx, "python")
    env = dict(os.environ)
    for text in TEXTS:
        for args in (["0"], [], ["0", "--opt-mode=enum"], ["--unknown"], ["0", "-V0"], ["0", "-e", "brave"], ["2"], ["0", "--outf=1"], ["0", "-q"], ["0", d.f1], [d.f1, d.f2], ["--outf=3"]):
            if d.lib == "eng" and (set(args) & {"--unknown", "-V0", "brave", "--outf=1", "-q", "--outf=3"}):
                continue
            ctx.journal("applications %r %r" % (text, args))

            def norm(rc, out, err):
                out = re.sub(r"(?m)^(?:% )?(Time|CPU Time|Threads|clingo version|pyclingo version).*$", "", out)
                if "0" not in args:
                    out = re.sub(r"(?m)^((?:% )?Answer: \d+.*\n).*$", r"\1...", out)
                out = "\n".join(sorted(" ".join(sorted(l.split(" "))) for l in out.split("\n")))  # the order is not specified
                err = re.sub(r"\((py)?clingo\)|'<?(py)?clingo>?", "NAME", err)
                if "0" not in args:  # whether the search space is known to be exhausted depends on the mode
                    rc, out = 30 if rc == 10 else rc, re.sub(r"[+]|^ ", "", out, flags=re.M)
                return rc, out, err.split("Traceback")[0].split("***")[0] if rc not in (10, 20, 30) else err

            p = subprocess.run([os.path.join(VERIF, ".build", d.lib, "bin", "clingo")] + args, input=text, capture_output=True, text=True)
            want = norm(p.returncode, p.stdout, p.stderr)
            ctx.execs += 3
            p = subprocess.run([sys.executable, "-m", "clingo"] + args, input=text, capture_output=True, text=True, env=env)
            ctx.eq("python -m clingo", norm(p.returncode, p.stdout, p.stderr), want, "%r %r" % (args, text))
            r = d.run({}, args, text)
            ctx.eq("python: application without overrides", norm(r[0], r[2], r[3]), want, "%r %r" % (args, text))
            c = Driver(ctx, "c++")
            r = c.run({}, args, text)
            ctx.eq("c++: application", norm(r[0], r[2], r[3]), want, "%r %r" % (args, text))


SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 128, 129, 200]


def wide(ctx, lang):
    """Many options, flags, occurrences and files, and long texts."""
    d = Driver(ctx, lang)
    key = "%s: " % lang
    for n in SIZES:
        files = []
        for i in range(n):
            files.append(os.path.join(d.tmp.name, "n%d.lp" % i))
            with open(files[-1], "w") as o:
                o.write("f(%d)." % i)
        multi = ["--multi=%d" % i for i in range(n)]
        opts = ["--w%d=%s" % (i, "x" * i) for i in range(n - 1, 0, -1)] + ["--w%d=again" % i for i in range(1, n, 2)]
        on = ["--v%d" % i for i in range(n) if i % 3]
        for what, args, calls, fs, bits in (
            ("files", files, [], files, None),
            ("multi options", multi, ["parse multi %d" % i for i in range(n)], [], None),
            ("long value", ["--opt=" + "y" * n, "--arg", "\u00e4" * n], ["parse opt " + "y" * n, "parse arg " + "\u00e4" * n], [], None),
            ("options", opts, ["parse w%d %s" % (i, "x" * i) for i in range(n - 1, 0, -1)] + ["parse w%d again" % i for i in range(1, n, 2)], [], [0] * n),
            ("flags", on, [], [], [int(i % 3 > 0) for i in range(n)]),
            ("everything", [x for t in itertools.zip_longest(on, files, opts) for x in t if x], ["parse w%d %s" % (i, "x" * i) for i in range(n - 1, 0, -1)] + ["parse w%d again" % i for i in range(1, n, 2)], files, [int(i % 3 > 0) for i in range(n)]),
        ):
            ctx.journal("%s %d %s" % (lang, n, what))
            ctx.state((n, what))
            spec = dict(opts=1, validate="ok", main="solve", name="N" * n, version="1." + "2" * n)
            if bits is not None:
                spec["extra"] = n
            code, log, out, err = d.run(spec, args, "f(0).")
            want = ["register"] + calls + ["validate 01", "main " + " ".join(fs), "result SAT"] + (["extra " + "".join(map(str, bits))] if bits is not None else []) + ["flags 01", "exit"]
            ctx.transitions += len(want)
            ctx.eq(key + "callbacks of a large run", log, want, "%d %s: %s" % (n, what, err))
            ctx.eq(key + "answers of a large run", [sorted(x.split()) for x in answers(out)], [sorted("f(%d)" % i for i in range(n if fs else 1))], "%d %s" % (n, what))
            ctx.eq(key + "name and version", out.split("\n")[0], "%s version 1.%s" % ("N" * n, "2" * n), "%d %s" % (n, what))
            # a bad value in the last position stops the run
            if what == "multi options":
                code, log, out, err = d.run(spec, args + ["--multi=bad"], "f(0).")
                ctx.eq(key + "callbacks up to a failed option", log, ["register"] + calls + ["parse multi bad", "exit"], "%d" % n)
                ctx.check("ERROR" in err and code not in (0, 10, 20, 30), key + "failed option", "%d: %d" % (n, code))


def tasks(tier):
    out = []
    for lib in ("sys", "eng"):
        for l in ("python", "c++"):
            k = (3 if lib == "sys" else 1) * (1 if tier == "quick" else 3)
            out += [Py("commands", l, i, k, lib=lib, name="commands-%s-%s-%d" % (l, lib, i)) for i in range(k)]
            out += [Py("overrides", l, i, 2, lib=lib, name="overrides-%s-%s-%d" % (l, lib, i)) for i in range(2)]
            out.append(Py("wide", l, lib=lib, name="wide-%s-%s" % (l, lib)))
            out.append(Py("failures", l, lib=lib, name="failures-%s-%s" % (l, lib)))
        out.append(Py("same", lib=lib, name="same-%s" % lib))
    return out
