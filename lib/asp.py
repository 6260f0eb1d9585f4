"""Brute-force semantics of small ground programs: the reference model of the solving checks.

A program is text in a ground subset of the language; parse() turns it into statements
  ("rule", choice?, (head atoms), body)     body: tuple of (atom, sign) or ("sum", bound, ((atom, sign, weight), ..))
  ("min", priority, ((atom, sign, weight, tuple), ..))
  ("ext", atom, "t"|"f"|"u"|"r")
  ("assume", ((atom, sign), ..))
  ("proj", (atoms)) ("edge", u, v, body) ("show", ..) are carried for text only
"""
import itertools
import re


def split(s, seps):
    """Splits at the characters in seps outside brackets and strings."""
    r, d, c, q = [], 0, "", False
    i = 0
    while i < len(s):
        x = s[i]
        if q:
            c += x
            if x == "\\":
                i += 1
                c += s[i]
            elif x == '"':
                q = False
        elif x == '"':
            q = True
            c += x
        elif x in "({[":
            d += 1
            c += x
        elif x in ")}]":
            d -= 1
            c += x
        elif x in seps and d == 0:
            r.append(c.strip())
            c = ""
        else:
            c += x
        i += 1
    if c.strip():
        r.append(c.strip())
    return r


def statements(text):
    """Splits at dots that end statements (not at ..)."""
    out, cur, d, q = [], "", 0, False
    i = 0
    while i < len(text):
        x = text[i]
        if q:
            cur += x
            if x == "\\":
                i += 1
                cur += text[i]
            elif x == '"':
                q = False
        elif x == '"':
            q = True
            cur += x
        elif x == "." and text[i : i + 2] == "..":
            cur += ".."
            i += 1
        elif x == "." and d == 0:
            j = i + 1
            while j < len(text) and text[j] == " ":
                j += 1
            if j < len(text) and text[j] == "[":
                k = text.index("]", j)
                cur += " " + text[j : k + 1]
                i = k
            out.append(cur.strip())
            cur = ""
        else:
            d += (x in "({") - (x in ")}")
            cur += x
        i += 1
    assert not cur.strip(), text
    return out


def literal(s):
    s = s.strip()
    n = 0
    while s.startswith("not "):
        n += 1
        s = s[4:].strip()
    return (s, n % 2 == 0) if n < 2 else ("~~" + s, n == 2)


def body(s):
    r = []
    for x in split(s, ",") if s else []:
        m = re.match(r"^(\d+)\s*\{(.*)\}$", x)
        if m:
            r.append(("sum", int(m.group(1)), tuple(literal(y) + (1,) for y in split(m.group(2), ";"))))
            continue
        m = re.match(r"^#sum\s*\{(.*)\}\s*>=\s*(-?\d+)$", x)
        if m:
            els = []
            for y in split(m.group(1), ";"):
                t, l = split(y, ":")
                els.append(literal(l) + (int(t.split(",")[0]),))
            r.append(("sum", int(m.group(2)), tuple(els)))
            continue
        r.append(literal(x))
    return tuple(r)


_cache = {}


def parse(text):
    if text not in _cache:
        _cache[text] = tuple(x for s in statements(text) for x in parse1(s))
    return _cache[text]


def parse1(s):
    if s.startswith("#external"):
        m = re.match(r"^#external\s+([^\[]+?)\s*(?:\[(\w+)\])?$", s)
        return [("ext", m.group(1), {"true": "t", "false": "f", "free": "u", "release": "r", None: "f"}[m.group(2)])]
    if s.startswith("#minimize") or s.startswith("#maximize"):
        by = {}
        sg = -1 if s.startswith("#max") else 1
        for y in split(s[s.index("{") + 1 : s.rindex("}")], ";"):
            t, l = split(y, ":") if ":" in y else (y, None)
            h, *rest = t.split(",")
            w, _, p = h.partition("@")
            by.setdefault(int(p or 0), []).append((literal(l) if l else None) + (sg * int(w), (w,) + tuple(rest)))
        return [("min", p, tuple(v)) for p, v in by.items()]
    if s.startswith("#show") or s.startswith("#const") or s.startswith("#defined") or s.startswith("#heuristic"):
        return []
    if s.startswith("#project"):
        return [("proj", (s[8:].strip(),))]
    h, _, b = s.partition(":-")
    h = h.strip()
    bd = body(b.strip())
    m = re.match(r"^(\d*)\s*\{(.*)\}\s*(\d*)$", h)
    if m:
        hs = tuple(split(m.group(2), ";"))
        r = [("rule", True, hs, bd)]
        els = tuple((x, True, 1) for x in hs)
        if m.group(1):
            # fewer than L: at least n-L+1 of the atoms false
            r.append(("rule", False, (), bd + (("sum", len(hs) - int(m.group(1)) + 1, tuple((x, False, 1) for x in hs)),)))
        if m.group(3):
            r.append(("rule", False, (), bd + (("sum", int(m.group(3)) + 1, els),)))
        return r
    hs = tuple(split(h, ";|")) if h else ()
    return [("rule", False, tuple(x for x in hs if x != "#false"), bd)]


def atoms_of(stms):
    r = []

    def add(a):
        a = a.lstrip("~")
        if a not in r:
            r.append(a)

    for s in stms:
        if s[0] == "rule":
            for a in s[2]:
                add(a)
            for l in s[3]:
                if l[0] == "sum":
                    for e in l[2]:
                        add(e[0])
                else:
                    add(l[0])
        elif s[0] == "ext":
            add(s[1])
        elif s[0] == "min":
            for e in s[2]:
                add(e[0])
        elif s[0] == "assume":
            for l in s[1]:
                add(l[0])
    return r


def holds(l, X):
    if l[0] == "sum":
        return sum(e[2] for e in l[2] if holds((e[0], e[1]), X)) >= l[1]
    a, sg = l
    if a.startswith("~~"):
        return (a[2:] in X) == sg
    return (a in X) == sg


def sat(bd, X):
    return all(holds(l, X) for l in bd)


def neg(a):
    return a[1:] if a.startswith("-") else "-" + a


class Reduct:
    """Definite (possibly disjunctive) rules left by an interpretation."""

    def __init__(self, stms, X):
        self.rules = []
        for s in stms:
            if s[0] != "rule":
                continue
            hs = s[2]
            pos, sums, ok = [], [], True
            for l in s[3]:
                if l[0] == "sum":
                    bound = l[1]
                    el = []
                    for e in l[2]:
                        if e[1] and not e[0].startswith("~~"):
                            el.append((e[0], e[2]))
                        elif holds((e[0], e[1]), X):
                            bound -= e[2]
                    sums.append((bound, el))
                elif l[1] and not l[0].startswith("~~"):
                    pos.append(l[0])
                elif not holds(l, X):
                    ok = False
            if not ok:
                continue
            if s[1]:
                for a in hs:
                    if a in X:
                        self.rules.append(((a,), pos, sums))
            else:
                self.rules.append((hs, pos, sums))

    def model(self, Y):
        for hs, pos, sums in self.rules:
            if any(h in Y for h in hs):
                continue
            if all(p in Y for p in pos) and all(sum(w for a, w in el if a in Y) >= b for b, el in sums):
                return False
        return True


def stable(stms, ext=None):
    """All stable models as frozensets; ext: atom -> t/f/u/r overriding the values of externals."""
    stms = list(stms)
    vals = {}
    for s in stms:
        if s[0] == "ext":
            vals[s[1]] = s[2]
    vals.update(ext or {})
    heads = {a for s in stms if s[0] == "rule" for a in s[2]}
    for a, v in vals.items():
        if a in heads:
            continue
        if v == "t":
            stms.append(("rule", False, (a,), ()))
        elif v == "u":
            stms.append(("rule", True, (a,), ()))
    at = atoms_of(stms)
    heads = sorted({a for s in stms if s[0] == "rule" for a in s[2]})
    out = []
    for n in range(len(heads) + 1):
        for c in itertools.combinations(heads, n):
            X = frozenset(c)
            if any(neg(a) in X for a in X):
                continue
            R = Reduct(stms, X)
            if not R.model(X):
                continue
            if any(R.model(frozenset(d)) for k in range(n) for d in itertools.combinations(c, k)):
                continue
            if not all(s[0] != "assume" or sat(s[1], X) for s in stms):
                continue
            if acyclic(stms, X):
                out.append(X)
    return out


def acyclic(stms, X):
    E = [(s[1], s[2]) for s in stms if s[0] == "edge" and sat(s[3], X)]
    nodes = {x for e in E for x in e}
    while nodes:
        src = [n for n in nodes if not any(v == n and u in nodes for u, v in E)]
        if not src:
            return False
        nodes -= set(src)
    return True


def cost(stms, X):
    """priority -> cost, with set semantics over tuples within a priority if tuples are given."""
    r = {}
    for s in stms:
        if s[0] != "min":
            continue
        r.setdefault(s[1], 0)
    for p in r:
        seen = set()
        for s in stms:
            if s[0] == "min" and s[1] == p:
                for e in s[2]:
                    if holds((e[0], e[1]), X):
                        k = e[3] if len(e) > 3 else None
                        if k is not None:
                            if k in seen:
                                continue
                            seen.add(k)
                        r[p] += e[2]
    return r


def costs(stms, X):
    c = cost(stms, X)
    return tuple(c[p] for p in sorted(c, reverse=True))


def key(X):
    return ",".join(sorted(X))
