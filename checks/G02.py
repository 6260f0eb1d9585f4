"""G02: text, aspif and reified output describe the same ground program."""
import collections
import itertools
import os
import re
import subprocess
import sys
import tempfile

import aspif
from checks.G01 import CONDS, SCOPE, places
from checks.solvelib import chunks
from vplib import B, Py

PID = "G02"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of small programs, output options and sequences of statements of the intermediate format, whose outputs by the real executables are read back and compared by enumeration of answer sets and statement by statement"
NOTE = "All singles and pairs (thorough: triples) of 38 rules with aggregates, conditional literals, disjunctions, externals, projections, heuristics, edges, show, minimize and theory statements: direct solving, the intermediate format read back and enumerated by a reference, the text format read back, and reified facts by gringo and by reify must agree, for seven output options. All pairs of 48 statement sequences of the intermediate format in one and two steps through reify with all options. All plans of up to two or three incremental actions written in both formats by an application."
RULE = ""
BUILD = ["eng/py/_clingo.so", "eng/bin/gringo", "eng/bin/reify"]
ASSUMPTIONS = ["engine built from the sources of the repository with the solver replaced by miniclasp", "text output omits theory definitions, which are added before reading it back"]
BIN = os.path.join(B, "eng", "bin")

THEORY = "#theory t { x { + : 1, binary, left; - : 2, unary; * : 2, binary, right }; &a/1 : x, any; &h/0 : x, {<=,>}, x, head; &b/0 : x, {=}, x, body; &d/0 : x, directive }."
BASE = "{p(1..2)}. {q}. "
RULES = [
    "r:-p(1),not q.",
    "r:-not not q.",
    "s:-r. r:-s. s:-q.",
    "a;b:-p(X).",
    "a|b. a:-b. b:-a.",
    "{a;b:q}1:-p(1).",
    ":-p(1),q.",
    "c:-2#sum{1,a:p(1);1,b:p(1);1:q;2:r}.",
    "c:-#sum{-1,a:p(1);-1,b:p(1);3:q}>=0.",
    "c:-#count{X:p(X);q:q}!=1.",
    "c:-#sum{1:c;1,x:q}>=1.",
    "c:-p(X):X=1..2;q.",
    "c:-#min{X:p(X);5:q}<5.",
    "1<=#sum{1,a:a;1,b:b;2:s:q}<=2.",
    "n(N):-N=#count{X:p(X)}.",
    "#minimize{1@2,a:p(1);1@2,b:p(1);-1@2:q;3:q}.",
    "#maximize{X@X,X:p(X)}. #minimize{2:not q}.",
    ":~ p(1),not q. [1@0,x] :~ a. [2@1]",
    "#external e. r:-e. #external f(X):p(X). [true]",
    "#external g. [free] r:-g,not p(1).",
    "#external r:q. [true]",
    "#show. #show t(X):p(X).",
    '#show p/1. #show (X,"a\\"b"):p(X).',
    "#show r/0. #show -q/0.",
    "#project p/1. #project q.",
    "#edge(1,2):p(1). #edge(2,1):p(2). #edge(f(a),1):q. #edge(2,f(a)):not r.",
    "#heuristic p(X). [X@2,sign] #heuristic q:p(1),not r. [-1,true] #heuristic r. [1@3,init]",
    "-p(1):-q. -q:-r. {-r}.",
    "r:-&a(1){X+1*2,-X:p(X);f(q,(1,),{2},[q]):not q}.",
    "&h{X:p(X)}<=3*X+1:-q,X=1.",
    "&d{q;1:p(1)}. r:-&b{}=0.",
    "{r}. s:-not r. t:-s,&b{p(1):p(1);q:r}= -2.",
    "d(1..3). r:-d(X),p(X). u(X):-d(X),not p(X).",
    "d(X):-X=1..2. c:-#sum{X:d(X),p(X);2,z:d(1)}>=3.",
    'k("a\\nb\\\\",-1,(),(1,),-f(a)):-q.',
    "#const z=4. w(z..z+1):-q. #show w/1.",
    "not a:-q. {a}. X<1:-p(X).",
    "v:-not v,p(2).",
]
OPTIONS = [["--keep-facts"], ["--preserve-facts=body"], ["--preserve-facts=symtab"], ["--preserve-facts=all"], ["--rewrite-minimize"], ["--single-shot"], ["--output-debug=all"]]


def tool(ctx, name, args, text):
    ctx.execs += 1
    p = subprocess.run([os.path.join(BIN, name)] + args, input=text, capture_output=True, text=True, timeout=60)
    if p.returncode < 0 or "rror" in p.stderr:
        ctx.fail("%s failed" % name, "%s: %s\n%s" % (args, p.returncode, p.stderr[-500:]))
        return None
    return p.stdout


def solve(text=None, file=None, project=False):
    """Sorted (shown, costs, true theory atoms), or their number."""
    import clingo

    c = clingo.Control(["0", "--opt-mode=enum"] + (["--project=auto"] if project else []), lambda k, m: None, 0)
    if file:
        c.load_aspif([file])
    else:
        c.add("base", [], text)
        c.ground([("base", [])])
    out = []
    th = [(str(t.term), t.guard and "%s %s" % t.guard or "", [(",".join(map(str, e.terms)), e.condition_id) for e in t.elements], t.literal) for t in c.theory_atoms]
    with c.solve(yield_=True) as h:
        for m in h:
            cost = tuple((p, x) for p, x in sorted(zip(m.priority, m.cost)) if x)
            out.append((sorted(set(map(str, m.symbols(shown=True)))), cost, sorted({(t, g, tuple(sorted((x, m.is_true(k)) for x, k in es))) for t, g, es, l in th if not l or m.is_true(l)})))
    return sorted(out)


def readable(text):
    """Text output with the definitions of #delayed atoms put in their places."""
    defs = dict(re.findall(r"^(#delayed\(\d+\)) <=> (.*)$", text, re.M))
    text = re.sub(r"^#delayed\(\d+\) <=> .*\n", "", text, flags=re.M)
    return re.sub(r"#delayed\(\d+\)", lambda m: defs[m.group(0)], text)


def named(stms):
    """Statements over shown atoms by name."""
    name = {}
    for s in stms:
        if s[0] == "output" and len(s[2]) == 1 and s[2][0] > 0:
            name.setdefault(s[2][0], s[1])
    lit = lambda l: ("-" if l < 0 else "") + name.get(abs(l), "?")
    out = set()
    for s in stms:
        if s[0] == "project":
            out |= {("project", name[a]) for a in s[1] if a in name}
        elif s[0] == "external" and s[1] in name:
            out.add(("external", name[s[1]], s[2]))
        elif s[0] == "heuristic" and s[1] in name:
            out.add(("heuristic", name[s[1]]) + s[2:5] + (tuple(sorted(map(lit, s[5]))),))
    return out


def bag(stms):
    return collections.Counter(x for s in stms for x in aspif.canon(s))


def reified(ctx, key, text, steps, sccs, numbered, inc):
    """Checks reified facts against the steps of the intermediate format."""
    try:
        i, got, scc = aspif.described(text, numbered)
    except ValueError as e:
        ctx.fail(key + ": ill-formed facts", "%s\n%s" % (e, text[:2000]))
        return
    ctx.eq(key + ": incremental tag", i, inc, "")
    if not numbered:
        steps = [[s for st in steps for s in st]]
    got += [[]] * (len(steps) - len(got))
    ctx.eq(key + ": number of steps", len(got), len(steps), "")
    for k, (g, w) in enumerate(zip(got, steps)):
        g, w = collections.Counter(g), bag(w)
        # statements described twice are one set of facts
        ctx.eq(key + ": statements", sorted(map(str, set(g) ^ set(w))), [], "step %d" % k)
    if sccs:
        ctx.eq(key + ": components", [x for x in scc] + [[]] * (len(steps) - len(scc)), [aspif.components(s) for s in steps], "")


def criteria(ms):
    """Costs given by the atoms of rewritten minimize constraints."""
    out = []
    for shown, _ in ms:
        cost = {}
        for x in shown:
            m = re.match(r"_criteria\((-?\d+),(-?\d+),", x)
            if m:
                cost[int(m.group(1))] = cost.get(int(m.group(1)), 0) + int(m.group(2))
        out.append(([x for x in shown if not x.startswith("_criteria(")], tuple(sorted(x for x in cost.items() if x[1]))))
    return sorted(out)


def readback(ctx, direct, text, out, back, stms):
    """The text output is read back."""
    try:
        ctx.eq("answer sets of the text read back", solve(back), direct, out)
    except RuntimeError as e:
        ctx.fail("text cannot be read back", "%s\n%s" % (e, out))
        return
    ctx.eq("models projected by the text read back", len(solve(back, project=True)), len(solve(text, project=True)), out)
    again = tool(ctx, "gringo", ["--output=intermediate"], back)
    if again:
        ctx.eq("statements of the text read back", sorted(named(aspif.read(again)[0]) ^ named(stms)), [], out)


def program(ctx, tmp, rules, options=False, base=THEORY + BASE):
    text = base + " ".join(rules)
    ctx.journal(text)
    try:
        direct = solve(text)
    except RuntimeError as e:
        if "too large" not in str(e):
            ctx.fail("direct solving failed", str(e))
        return
    ctx.transitions += len(direct)
    ctx.nontrivial += len(direct) > 1
    ctx.state((text,))
    inter = tool(ctx, "gringo", ["--output=intermediate"], text)
    if inter is None:
        return
    steps = aspif.read(inter)
    ctx.eq("one step", len(steps), 1, "")
    stms = steps[0]
    try:
        want = aspif.answers(stms)
        ctx.eq("answer sets of the intermediate format", want, sorted(x[:2] for x in direct), "")
    except OverflowError:
        ctx.skipped = getattr(ctx, "skipped", 0) + 1
    file = os.path.join(tmp, "x.aspif")
    with open(file, "w") as f:
        f.write(inter)
    ctx.eq("answer sets of the intermediate format read back", solve(file=file), direct, "")
    out = tool(ctx, "gringo", ["--text"], text)
    if out is None:
        return
    back = THEORY + readable(out)
    # (formulas and projections have no counterpart in the input language)
    if base != SCOPE or not re.search(r"#p_|:-[^\n]*[|&]|^#delayed\(\d+\) <=> .*[&|]", out, re.M):
        readback(ctx, direct, text, out, back, stms)
    ref = tool(ctx, "gringo", ["--output=reify", "--reify-sccs"], text)
    if ref is not None:
        reified(ctx, "gringo --output=reify", ref, steps, True, False, False)
    for args in (["--sccs"], ["--steps"]):
        pipe = tool(ctx, "reify", args, inter)
        if pipe is not None:
            reified(ctx, "reify " + args[0], pipe, steps, args == ["--sccs"], args == ["--steps"], False)
    if options:
        for o in OPTIONS:
            rewrite = o == ["--rewrite-minimize"]
            if rewrite and "#show" in text:
                continue
            alt = tool(ctx, "gringo", ["--output=intermediate"] + o, text)
            if alt is None:
                continue
            alt = "\n".join(l for l in alt.split("\n") if not l.startswith("%"))
            try:
                got = aspif.answers(aspif.read(alt)[0])
            except OverflowError:
                continue
            ctx.eq("answer sets with %s" % o[0], criteria(got) if rewrite else got, sorted(x[:2] for x in direct), "")
            alt = tool(ctx, "gringo", ["--text"] + o, text)
            if alt and o[0] not in ("--output-debug=all", "--rewrite-minimize"):
                try:
                    ctx.eq("answer sets of the text with %s" % o[0], solve(THEORY + readable(alt)), direct, alt)
                except RuntimeError as e:
                    ctx.fail("text with %s cannot be read back" % o[0], "%s\n%s" % (e, alt))


def formats(ctx, i, n):
    sets = [(r,) for r in RULES] + list(itertools.combinations(RULES, 2))
    if ctx.tier == "thorough":
        sets += itertools.combinations(RULES, 3)
    with tempfile.TemporaryDirectory() as tmp:
        for j, r in enumerate(chunks(sets, i, n)):
            program(ctx, tmp, r, len(r) == 1 or len(r) == 2 and (ctx.tier == "thorough" or j % 6 == 0))


LINES = [
    "1 0 1 1 0 0",
    "1 0 1 1 0 2 2 -3",
    "1 0 1 2 0 1 1",
    "1 0 1 2 0 3 1 1 -1",
    "1 1 2 1 2 0 1 3",
    "1 1 0 0 0",
    "1 0 2 2 3 0 1 1",
    "1 0 0 0 2 1 -2",
    "1 0 1 3 1 2 3 1 1 2 2 -4 1",
    "1 0 1 1 1 1 2 3 1 2 1",
    "1 1 1 2 1 -1 2 1 -2 3 1",
    "1 0 1 3 1 0 0",
    "1 0 1 2 1 2 2 -1 2 -1 1",
    "1 0 1 4 0 1 3",
    "1 0 1 3 0 1 4",
    "1 0 3 1 2 1 0 1 2",
    "2 0 0",
    "2 1 2 1 3 -2 -1",
    "2 -1 3 1 3 1 3 2 3",
    "2 2 2 1 2 1 -2",
    "3 2 1 2",
    "3 0",
    "4 4 p(1) 1 1",
    "4 4 p(1) 0",
    "4 7 f(\"= \") 2 1 -2",
    "4 3 a=3 1 2",
    "4 6 x=1=-2 1 2",
    "4 2 =3 0",
    "4 4 x=-3 2 1 1",
    "4 3 b=c 0",
    "5 1 0",
    "5 2 1",
    "5 3 2",
    "5 4 3",
    "6 2 1 -2",
    "6 0",
    "7 0 1 2 3 0",
    "7 1 2 -1 0 1 -1",
    "7 2 1 1 1 2 2 2",
    "7 3 1 -5 9 0",
    "7 4 2 1 2 1 1",
    "7 5 2 1 2 1 1",
    "8 0 1 1 1",
    "8 2 2 0",
    "8 1 0 2 -1 2",
]
THEORIES = [
    ["9 0 0 -3", "9 1 1 4 a\"\\\n", "9 2 2 1 2 0 1", "9 2 3 -1 2 2 2", "9 4 0 2 3 0 1 1", "9 5 3 1 1 0"],
    ["9 1 0 1 f", "9 2 1 0 0", "9 2 2 -2 1 1", "9 2 3 -3 2 2 1", "9 4 7 1 3 0", "9 4 3 0 2 1 -1", "9 6 2 0 2 7 3 0 3", "9 5 0 0 0"],
    ["9 1 0 3 a\nb", "9 5 2 0 0"],
]
PROGRAMS = [[l] for l in LINES] + THEORIES


def reify_lines(ctx, steps, args):
    head = "asp 1 0 0" + (" incremental" if len(steps) > 1 else "") + "\n"
    text = head + "".join("".join(l + "\n" for l in st) + "0\n" for st in steps)
    ctx.journal("%s %s" % (args, text))
    out = tool(ctx, "reify", args, text)
    if out is None:
        return
    ctx.state((text,))
    ctx.transitions += sum(map(len, steps))
    stms = [[aspif.statement(l) for l in st] for st in steps]
    reified(ctx, "reify " + " ".join(args), out, stms, "--sccs" in args, "--steps" in args, len(steps) > 1)


def raw(ctx, i, n):
    """Statements of the intermediate format one after another, in one step and in two."""
    arg = [["--sccs"], ["--steps"], ["--sccs", "--steps"], []]
    seqs = [[p] for p in PROGRAMS] + [[a + b] for a in PROGRAMS for b in PROGRAMS] + [[a, b] for a in PROGRAMS for b in PROGRAMS]
    if ctx.tier == "thorough":
        seqs += [[a + b, b + c] for a in PROGRAMS for b in PROGRAMS for c in PROGRAMS[::3]]
        seqs += [[a + b + c] for a in PROGRAMS for b in PROGRAMS for c in PROGRAMS[::2]]
    for j, s in enumerate(chunks(seqs, i, n)):
        for a in arg if len(s) == 1 and len(s[0]) == 1 else [arg[2]] if len(s) > 1 else [arg[j % 4]]:
            reify_lines(ctx, s, a)


SUBROUTINE = """
import sys, clingo
from clingo import clingo_main, Application, Number, Function
class A(Application):
    def __init__(self, plan): self.plan = plan
    def main(self, c, files):
        for f in files: c.load(f)
        for x in self.plan: eval(x)
sys.exit(clingo_main(A(eval(sys.argv[1])), sys.argv[2:]))
"""
STEP = """
{p(0)}. q(0):-p(0). #external e. #external f. [free]
#program step(t). {p(t)}. q(t):-p(t),not q(t-1),e. q(t):-q(t-1). #external g(t). r:-f. c(t):-#count{t:p(t);x:q(t-1);y:e}>=2. #minimize{t@t,t:p(t)}. #show q(t):q(t). #edge(t-1,t):p(t). #heuristic p(t). [t,sign] #project p(t). a(t):-b(t),e. b(t):-a(t). b(t):-p(t),e.
&a(t){t:p(t);0:e}.
#program fact. f. q(7).
#theory t { x { + : 1, binary, left }; &a/1 : x, head }.
"""
ACTIONS = [
    'c.ground([("step",[Number(1)])])',
    'c.ground([("step",[Number(2)])])',
    'c.assign_external(Function("e"),True)',
    'c.assign_external(Function("f"),False)',
    'c.release_external(Function("e"))',
    'c.ground([("fact",[])])',
    'c.solve(assumptions=[(Function("p",[Number(0)]),False),(Function("q",[Number(1)]),True)])',
    'c.solve()',
]

def incremental(ctx, i, n):
    """Plans of steps written by an application as intermediate format and as facts."""
    import clingo

    k = 3 if ctx.tier == "thorough" else 2
    plans = [x for m in range(1, k + 1) for x in itertools.permutations(ACTIONS, m)]
    if ctx.tier != "thorough":
        plans += [x for x in itertools.permutations(ACTIONS[:3] + ACTIONS[4:6], 3)]
    with tempfile.TemporaryDirectory() as tmp:
        app, lp = os.path.join(tmp, "app.py"), os.path.join(tmp, "x.lp")
        with open(app, "w") as f:
            f.write(SUBROUTINE)
        with open(lp, "w") as f:
            f.write(STEP)
        for plan in chunks(plans, i, n):
            # steps in reverse order would define atoms already used before, which is not supported
            if ACTIONS[1] in plan and ACTIONS[0] in plan[plan.index(ACTIONS[1]) :]:
                continue
            # every action is followed by a search
            acts = ['c.ground([("base",[])])', "c.solve()"]
            for a in plan:
                acts += [a] if "solve" in a else [a, "c.solve()"]
            ctx.journal(repr(acts))
            ctx.execs += 1
            outs = []
            for o in (["--output=intermediate"], ["--output=reify", "--reify-steps", "--reify-sccs"]):
                p = subprocess.run([sys.executable, app, repr(acts), "--mode=gringo"] + o + [lp], capture_output=True, text=True, timeout=60)
                if p.returncode != 0 or "Traceback" in p.stderr:
                    ctx.fail("application writing %s" % o[0], p.stderr[-600:])
                    break
                outs.append(p.stdout)
            else:
                steps = aspif.read(outs[0])
                reified(ctx, "steps of --output=reify", outs[1], steps, True, True, True)
                pipe = tool(ctx, "reify", ["--sccs", "--steps"], outs[0])
                if pipe is not None:
                    ctx.eq("facts of reify and --output=reify", sorted(pipe.split("\n")), sorted(outs[1].split("\n")), "")
                ctx.transitions += len(steps)
                ctx.state((outs[0],))
                # every step with the ones before it has the answer sets found by solving
                want = live(acts)
                ctx.eq("number of steps", len(steps), len(want), "")
                for j, w in enumerate(want):
                    ctx.eq("answer sets after each step", upto(steps[: j + 1]), w, "step %d" % j)


def live(acts):
    """Answer sets of every search of a plan."""
    import clingo
    from clingo import Function, Number

    out = []

    class C:
        def __init__(self):
            self.c = clingo.Control(["0", "--opt-mode=enum"], lambda k, m: None, 0)
            self.c.add("base", [], STEP)

        def __getattr__(self, a):
            return getattr(self.c, a)

        def solve(self, assumptions=()):
            ms = []
            with self.c.solve(yield_=True, assumptions=list(assumptions)) as h:
                for m in h:
                    ms.append((sorted(set(map(str, m.symbols(shown=True)))), tuple((p, x) for p, x in sorted(zip(m.priority, m.cost)) if x)))
            out.append(sorted(ms))

    c = C()
    for a in acts:
        eval(a, {"c": c, "Function": Function, "Number": Number})
    return out


def upto(steps):
    """Answer sets of the last step."""
    stms, ext, last = [], {}, []
    for s in (s for st in steps for s in st):
        if s[0] == "external":
            # a released atom cannot become external again
            if ext.get(s[1], s)[2] != "release":
                ext[s[1]] = s
        elif s[0] not in ("assume",):
            stms.append(s)
    stms += [s for s in ext.values()]
    for s in steps[-1]:
        if s[0] == "assume":
            stms += [("rule", "disjunction", (), ("normal", (-l,))) for l in s[1]]
    return aspif.answers(stms)


def scopes(ctx, i, n):
    with tempfile.TemporaryDirectory() as tmp:
        for t in chunks(places() + ["#edge (X,X+1):%s. {-n(1..2)}." % c for c in CONDS + [" -n(X)"]] + ["#heuristic p(X):%s. [X,true] {-n(1..2)}." % c for c in CONDS + [" -n(X)"]], i, n):
            program(ctx, tmp, (t,), ctx.tier == "thorough", SCOPE)


def tasks(tier):
    k = 8 if tier == "quick" else 16
    out = [Py("formats", i, k, lib="eng", name="formats-%d" % i) for i in range(k)]
    out += [Py("raw", i, k, lib="eng", name="raw-%d" % i) for i in range(k)]
    out += [Py("incremental", i, k, lib="eng", name="incremental-%d" % i) for i in range(k)]
    out += [Py("scopes", i, k, lib="eng", name="scopes-%d" % i) for i in range(k)]
    return out
