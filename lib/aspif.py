"""Reference reader of the intermediate format, its reification, and its semantics by enumeration."""
import itertools
import re

from asp import split

TYPES = {0: "false", 1: "true", 2: "free"}
HEUR = ["level", "sign", "factor", "init", "true", "false"]


def read(text):
    """List of steps; a step is a list of statements."""
    steps, cur = [], []
    for line in text.split("\n"):
        if not line or line.startswith("asp ") or line.startswith("10 "):
            continue
        if line == "0":
            steps.append(cur)
            cur = []
            continue
        cur.append(statement(line))
    return steps


def statement(line):
    w = line.split(" ")
    k = w[0]
    it = iter(w[1:])
    n = lambda: int(next(it))
    lst = lambda: tuple(n() for _ in range(n()))
    wl = lambda: tuple((n(), n()) for _ in range(n()))

    def string():
        # length, blank, characters
        nonlocal it
        rest = " ".join(it)
        m, s = rest.split(" ", 1)
        it = iter(s.encode()[int(m) :].decode()[1:].split(" "))
        return s.encode()[: int(m)].decode()

    if k == "1":
        h = ("disjunction", "choice")[n()]
        head = lst()
        if n() == 0:
            return ("rule", h, head, ("normal", lst()))
        b = n()
        return ("rule", h, head, ("sum", wl(), b))
    if k == "2":
        return ("minimize", n(), wl())
    if k == "3":
        return ("project", lst())
    if k == "4":
        s = string()
        return ("output", s, lst())
    if k == "5":
        a = n()
        return ("external", a, ("free", "true", "false", "release")[n()])
    if k == "6":
        return ("assume", lst())
    if k == "7":
        t, a, b, p = n(), n(), n(), n()
        return ("heuristic", a, HEUR[t], b, p, lst())
    if k == "8":
        return ("edge", n(), n(), lst())
    assert k == "9", line
    t = n()
    if t == 0:
        return ("theory_number", n(), n())
    if t == 1:
        i = n()
        return ("theory_string", i, string())
    if t == 2:
        i, f = n(), n()
        return ("theory_function", i, f, lst()) if f >= 0 else ("theory_sequence", i, {-1: "tuple", -2: "set", -3: "list"}[f], lst())
    if t == 4:
        i = n()
        ts = lst()
        return ("theory_element", i, ts, lst())
    a, b = n(), n()
    es = lst()
    return ("theory_atom", a, b, es) + ((n(), n()) if t == 6 else ())


def canon(s):
    """Statement as described by reified facts, where tuples of literals are sets."""
    fs = frozenset

    def ws(x):
        d = {}
        for l, w in x:
            d[l] = d.get(l, 0) + w
        return fs(d.items())

    k = s[0]
    if k == "rule":
        return [("rule", s[1], fs(s[2]), ("normal", fs(s[3][1])) if s[3][0] == "normal" else ("sum", ws(s[3][1]), s[3][2]))]
    if k == "minimize":
        return [("minimize", s[1], ws(s[2]))]
    if k == "project":
        return [("project", a) for a in s[1]]
    if k == "assume":
        return [("assume", a) for a in s[1]]
    if k == "output":
        m = re.fullmatch(r"(.+)=(-?\d+)", s[1], re.S)
        return [("output_csp", m.group(1), m.group(2), fs(s[2]))] if m else [("output", s[1], fs(s[2]))]
    if k in ("heuristic", "edge"):
        return [s[:-1] + (fs(s[-1]),)]
    if k == "theory_element":
        return [("theory_element", s[1], s[2], fs(s[3]))]
    if k == "theory_atom":
        return [("theory_atom", s[1], s[2], fs(s[3])) + s[4:]]
    return [s]


def facts(text):
    """Facts of reified output: (name, arguments as text)."""
    out = []
    for line in re.findall(r'(?:[^"\n]|"(?:[^"\\]|\\.|\n)*")+', text):
        m = re.fullmatch(r"(\w+)\((.*)\)\.", line, re.S)
        if not m:
            raise ValueError(line)
        out.append((m.group(1), split(m.group(2), ",")))
    return out


def unquote(s):
    return s[1:-1].replace("\\\\", "\0").replace("\\n", "\n").replace('\\"', '"').replace("\0", "\\")


def described(text, steps):
    """Statements by step described by reified facts; raises ValueError if they are not well formed.

    Returns (incremental, list of steps, sccs by step)."""
    fs = facts(text)
    inc = ("tag", ["incremental"]) in fs
    n = 1
    by = {}
    for f, a in fs:
        if f == "tag":
            continue
        k = 0
        if steps:
            k = int(a[-1])
            a = a[:-1]
        by.setdefault(k, []).append((f, a))
    out, sccs = [], []
    for k in range(max(by, default=-1) + 1):
        tup = {}
        stm, scc = [], {}
        for f, a in by.get(k, []):
            if f in ("atom_tuple", "literal_tuple", "weighted_literal_tuple", "theory_tuple", "theory_element_tuple"):
                key = (f, int(a[0]))
                if len(a) == 1:
                    if key in tup:
                        raise ValueError("tuple declared twice: %s" % (key,))
                    tup[key] = []
                else:
                    if key not in tup:
                        raise ValueError("element of an undeclared tuple: %s" % (key,))
                    v = tuple(map(int, a[1:]))
                    tup[key].append(v if len(v) > 1 else v[0])

        def get(f, i, order=False):
            v = tup[f, int(i)]
            if order:
                if [x for x, _ in v] != list(range(len(v))):
                    raise ValueError("positions of a tuple: %s" % v)
                return tuple(y for _, y in v)
            return frozenset(v)

        for key, v in tup.items():
            if len(set(v)) != len(v) and key[0] == "weighted_literal_tuple":
                raise ValueError("element of a tuple repeated: %s" % (v,))
        for f, a in by.get(k, []):
            if f == "rule":
                h, hi = re.fullmatch(r"(disjunction|choice)\((\d+)\)", a[0]).groups()
                m = re.fullmatch(r"normal\((\d+)\)", a[1])
                if m:
                    b = ("normal", get("literal_tuple", m.group(1)))
                else:
                    t, bd = re.fullmatch(r"sum\((\d+),(-?\d+)\)", a[1]).groups()
                    b = ("sum", get("weighted_literal_tuple", t), int(bd))
                stm.append(("rule", h, get("atom_tuple", hi), b))
            elif f == "minimize":
                stm.append(("minimize", int(a[0]), get("weighted_literal_tuple", a[1])))
            elif f in ("project", "assume"):
                stm.append((f, int(a[0])))
            elif f == "output":
                stm.append((f, a[0], get("literal_tuple", a[1])))
            elif f == "output_csp":
                stm.append((f, a[0], a[1], get("literal_tuple", a[2])))
            elif f == "external":
                stm.append((f, int(a[0]), a[1]))
            elif f == "heuristic":
                stm.append((f, int(a[0]), a[1], int(a[2]), int(a[3]), get("literal_tuple", a[4])))
            elif f == "edge":
                stm.append((f, int(a[0]), int(a[1]), get("literal_tuple", a[2])))
            elif f == "theory_number":
                stm.append((f, int(a[0]), int(a[1])))
            elif f == "theory_string":
                stm.append((f, int(a[0]), unquote(a[1])))
            elif f == "theory_function":
                stm.append((f, int(a[0]), int(a[1]), get("theory_tuple", a[2], True)))
            elif f == "theory_sequence":
                stm.append((f, int(a[0]), a[1], get("theory_tuple", a[2], True)))
            elif f == "theory_element":
                stm.append((f, int(a[0]), get("theory_tuple", a[1], True), get("literal_tuple", a[2])))
            elif f == "theory_atom":
                stm.append((f, int(a[0]), int(a[1]), get("theory_element_tuple", a[2])) + tuple(map(int, a[3:])))
            elif f == "scc":
                scc.setdefault(int(a[0]), []).append(int(a[1]))
            elif not f.endswith("tuple"):
                raise ValueError("unknown fact %s" % f)
        out.append(stm)
        sccs.append(sorted(sorted(x) for x in scc.values()))
    return inc, out, sccs


def components(stms):
    """Nontrivial strongly connected components of the positive dependency graph."""
    g = {}
    for s in stms:
        if s[0] == "rule":
            for a in s[2]:
                for l in s[3][1]:
                    l = l[0] if isinstance(l, tuple) else l
                    if l > 0:
                        g.setdefault(a, set()).add(l)
    reach = {}
    for a in g:
        seen, todo = set(), [a]
        while todo:
            for y in g.get(todo.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        reach[a] = seen
    out = {tuple(sorted(b for b in reach[a] | {a} if b == a or a in reach.get(b, ()))) for a in g}
    return sorted(list(c) for c in out if len(c) > 1)


# ---- semantics
def models(stms, bound=12):
    """Answer sets as (shown strings, costs by priority, truth of theory atoms by name)."""
    rules = [s for s in stms if s[0] == "rule"]
    free, false = set(), set()
    ext = {}
    for s in stms:
        if s[0] == "external":
            ext[s[1]] = s[2]
    heads = {a for s in rules for a in s[2]}
    for a, v in ext.items():
        if a not in heads:
            if v == "true":
                rules.append(("rule", "disjunction", (a,), ("normal", ())))
            elif v == "free":
                rules.append(("rule", "choice", (a,), ("normal", ())))
    for s in stms:
        if s[0] == "theory_atom" and s[1] and s[1] not in heads:
            rules.append(("rule", "choice", (s[1],), ("normal", ())))
    certain = set()
    while True:
        n = len(certain)
        for _, h, hd, b in rules:
            if h == "disjunction" and len(hd) == 1 and b[0] == "normal" and all(l in certain for l in b[1]):
                certain.add(hd[0])
        if n == len(certain):
            break
    N = set()
    for _, h, hd, b in rules:
        if h == "choice" or len(hd) > 1:
            N |= set(hd)
        N |= {-l for l in b[1] if l < 0} if b[0] == "normal" else {abs(l) for l, w in b[1]}
    N = sorted((N & {a for r in rules for a in r[2]}) - certain)
    if len(N) > bound:
        raise OverflowError

    def sat(b, H, T):
        t = lambda l: l in H if l > 0 else -l not in T
        return all(map(t, b[1])) if b[0] == "normal" else sum(w for l, w in b[1] if t(l)) >= b[2]

    def ok(H, T):
        for _, h, hd, b in rules:
            if sat(b, H, T):
                if h == "choice":
                    if any(a in T and a not in H for a in hd):
                        return False
                elif not any(a in H for a in hd):
                    return False
        return True

    normal = [(hd[0], b) for _, h, hd, b in rules if h == "disjunction" and len(hd) == 1]

    def close(S, T):
        S = set(S) | certain
        n = -1
        while n != len(S):
            n = len(S)
            for a, b in normal:
                if a not in S and sat(b, S, S if T is None else T):
                    S.add(a)
        return S

    out = []
    for k in range(len(N) + 1):
        for c in itertools.combinations(N, k):
            # closing may use negations of atoms that are derived later; the final test decides
            T = set(c) | certain
            n = -1
            while n != len(T):
                n = len(T)
                for a, b in normal:
                    if a not in T and sat(b, T, set(c) | certain | (T - set(N))):
                        T.add(a)
            if {a for a in T if a in N} != set(c) or not ok(T, T):
                continue
            if any(H < T and ok(H, T) for j in range(k + 1) for h in itertools.combinations(c, j) for H in [close(h, T)]):
                continue
            out.append(frozenset(T))
    return out


def shown(stms, T):
    t = lambda l: l in T if l > 0 else -l not in T
    return frozenset(s[1] for s in stms if s[0] == "output" and all(map(t, s[2])))


def costs(stms, T):
    t = lambda l: l in T if l > 0 else -l not in T
    out = {}
    for s in stms:
        if s[0] == "minimize":
            out[s[1]] = out.get(s[1], 0) + sum(w for l, w in s[2] if t(l))
    return tuple(sorted((p, c) for p, c in out.items() if c))


def edges(stms, T):
    t = lambda l: l in T if l > 0 else -l not in T
    return {(s[1], s[2]) for s in stms if s[0] == "edge" and all(map(t, s[3]))}


def cyclic(es):
    nodes = {x for e in es for x in e}
    while nodes:
        src = [n for n in nodes if not any(v == n and u in nodes for u, v in es)]
        if not src:
            return True
        nodes -= set(src)
    return False


def answers(stms):
    """Answer sets respecting acyclicity: sorted (shown, costs)."""
    return sorted((sorted(shown(stms, T)), costs(stms, T)) for T in models(stms) if not cyclic(edges(stms, T)))
