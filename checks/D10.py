"""D10: enumerations and plain values mean the same in every interface."""
import itertools
import os

from vplib import B, Exe, Py

PID = "D10"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all members, pairs and triples of members of every enumeration and all values of result sets, literals and locations, against tables of the C interface"
NOTE = "Every enumeration of Python (20), C++ (26) and Lua (7): names, values, lookup by value and by name, printing, and all operators on all pairs of members within and across enumerations (Python, Lua); all sixteen solve results; signed symbolic literals; locations over two files, lines and columns. On two libraries."
RULE = ""
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = ["sys/py/_clingo.so", "eng/py/_clingo.so", "sys/lua/clingo.so", "eng/lua/clingo.so", "sys/drv/cppenum", "eng/drv/cppenum"]
ASSUMPTIONS = ["the numeric values are those of the C interface"]

# module, class, members with their values in the C interface
PY = [
    ("core", "MessageCode", dict(OperationUndefined=0, RuntimeError=1, AtomUndefined=2, FileIncluded=3, VariableUnbounded=4, GlobalVariable=5, Other=6)),
    ("core", "TruthValue", dict(Free=0, True_=1, False_=2, Release=3)),
    ("symbol", "SymbolType", dict(Infimum=0, Number=1, String=4, Function=5, Supremum=7)),
    ("theory_atoms", "TheoryTermType", dict(Tuple=0, List=1, Set=2, Function=3, Number=4, Symbol=5)),
    ("backend", "TheorySequenceType", dict(Tuple=0, Set=1, List=2)),
    ("backend", "HeuristicType", dict(Level=0, Sign=1, Factor=2, Init=3, True_=4, False_=5)),
    ("propagator", "PropagatorCheckMode", dict(Off=0, Total=1, Fixpoint=2, Both=3)),
    ("propagator", "PropagatorUndoMode", dict(Default=0, Always=1)),
    ("solving", "ModelType", dict(StableModel=0, BraveConsequences=1, CautiousConsequences=2)),
    ("ast", "AggregateFunction", dict(Count=0, Sum=1, SumPlus=2, Min=3, Max=4)),
    ("ast", "BinaryOperator", dict(XOr=0, Or=1, And=2, Plus=3, Minus=4, Multiplication=5, Division=6, Modulo=7, Power=8)),
    ("ast", "CommentType", dict(Line=0, Block=1)),
    ("ast", "ComparisonOperator", dict(GreaterThan=0, LessThan=1, LessEqual=2, GreaterEqual=3, NotEqual=4, Equal=5)),
    ("ast", "Sign", dict(NoSign=0, Negation=1, DoubleNegation=2)),
    ("ast", "TheoryAtomType", dict(Head=0, Body=1, Any=2, Directive=3)),
    ("ast", "TheoryOperatorType", dict(Unary=0, BinaryLeft=1, BinaryRight=2)),
    ("ast", "TheorySequenceType", dict(Tuple=0, Set=1, List=2)),
    ("ast", "UnaryOperator", dict(Minus=0, Negation=1, Absolute=2)),
]
AST = """Id Variable SymbolicTerm UnaryOperation BinaryOperation Interval Function Pool BooleanConstant SymbolicAtom Comparison Guard
ConditionalLiteral Aggregate BodyAggregateElement BodyAggregate HeadAggregateElement HeadAggregate Disjunction TheorySequence
TheoryFunction TheoryUnparsedTermElement TheoryUnparsedTerm TheoryGuard TheoryAtomElement TheoryAtom Literal TheoryOperatorDefinition
TheoryTermDefinition TheoryGuardDefinition TheoryAtomDefinition Rule Definition ShowSignature ShowTerm Minimize Script Program External Edge Heuristic
ProjectAtom ProjectSignature Defined TheoryDefinition Comment""".split()
OPS = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def enums(ctx):
    import importlib

    allm = []
    for mod, name, want in PY + [("ast", "ASTType", None)]:
        cls = getattr(importlib.import_module("clingo." + mod), name)
        key = "python: %s.%s: " % (mod, name)
        ctx.journal(key)
        if want is None:
            got = [m.name for m in cls]
            # the constructors are listed in the order of the C interface
            for x in sorted(set(got) ^ set(AST)):
                ctx.fail(key + "members", x)
            want = {m: i for i, m in enumerate(AST)}
        ctx.eq(key + "members", {m: cls[m].value for m in cls.__members__}, want, "members and values")
        for n, v in want.items():
            m = cls[n]
            ctx.transitions += 1
            ctx.check(getattr(cls, n) is m and cls(v) is m and m.name == n, key + "lookup", n)
            ctx.eq(key + "text", str(m) in ("%s.%s" % (name, n), str(v)), True, str(m))
        for v in (-1, max(want.values()) + 1, 2, 3, 6):
            if v not in want.values():
                try:
                    ctx.fail(key + "value without a member", "%r gives %r" % (v, cls(v)))
                except ValueError:
                    pass
        ctx.check(len(set(cls)) == len({hash(m) for m in cls}) == len(want), key + "hash", "")
        allm.append((key, cls, list(cls)))
    for (key, cls, ms), (k2, c2, ns) in itertools.product(allm, allm):
        for a, b in itertools.product(ms, ns):
            ctx.execs += 1
            ctx.state((key, a.name, k2, b.name))
            if cls is c2:
                ctx.check((a == b) == (a.value == b.value) and (a != b) == (a.value != b.value), key + "equality", "%s %s" % (a, b))
                for o, f in OPS.items():
                    ctx.check(f(a, b) == f(a.value, b.value), key + "order", "%s %s %s" % (a, o, b))
            elif not (isinstance(a, int) and isinstance(b, int)):
                ctx.check(not (a == b) and a != b, key + "equality across types", "%s %s" % (a, b))
                for o, f in OPS.items():
                    try:
                        ctx.fail(key + "order across types", "%s %s %s gives %r" % (a, o, b, f(a, b)))
                    except TypeError:
                        pass
        if cls is c2:
            ctx.nontrivial += 1
            ctx.check([m.value for m in sorted(ms)] == sorted(m.value for m in ms) and max(ms).value == max(m.value for m in ms), key + "sorting", "")


def results(ctx):
    from clingo.solving import SolveResult

    for rep in range(16):
        ctx.journal("result %d" % rep)
        ctx.execs += 1
        ctx.state(rep)
        r = SolveResult(rep)
        sat = True if rep & 1 else False if rep & 2 else None
        unsat = True if rep & 2 else False if rep & 1 else None
        ctx.eq("python: solve result", (r.satisfiable, r.unsatisfiable, r.unknown, r.exhausted, r.interrupted), (sat, unsat, not rep & 3, bool(rep & 4), bool(rep & 8)), "flags")
        ctx.eq("python: solve result: text", str(r), "SAT" if rep & 1 else "UNSAT" if rep & 2 else "UNKNOWN", "text")
        ctx.eq("python: solve result: repr", repr(r), "SolveResult(%d)" % rep, "repr")
        ctx.transitions += 7


def tasks(tier):
    out = []
    for l in ("sys", "eng"):
        out.append(Py("enums", lib=l, name="python enums " + l))
        out.append(Py("results", lib=l, name="python results " + l))
        out.append(Exe(["lua5.4", f"{VERIF}/checks/luaenum.lua"], lib=l, name="lua enums " + l))
        out.append(Exe([f"{B}/{l}/drv/cppenum"], lib=l, name="c++ enums " + l))
    return out
