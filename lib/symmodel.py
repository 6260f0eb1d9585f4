"""Reference model of symbols: plain tuples, their order and their text."""
INF = ("inf",)
SUP = ("sup",)


def num(n):
    return ("num", n)


def st(s):
    return ("str", s)


def fun(name, args=(), pos=True):
    return ("fun", name, tuple(args), pos)


def tup(*args):
    return fun("", args)


def _b(s):
    return s.encode()


def key(d):
    """Sort key implementing the documented order of terms."""
    k = d[0]
    if k == "inf":
        return (0,)
    if k == "num":
        return (1, d[1])
    if k == "fun" and not d[2]:  # constants; the empty tuple is the one with the empty name
        return (2 if d[3] else 3, _b(d[1]))
    if k == "str":
        return (4, _b(d[1]))
    if k == "fun":
        return (5, not d[3], len(d[2]), _b(d[1]), tuple(key(a) for a in d[2]))
    return (7,)


def quote(s):
    return s.replace("\\", "\\\\").replace("\n", "\\n").replace('"', '\\"')


def text(d):
    k = d[0]
    if k == "inf":
        return "#inf"
    if k == "sup":
        return "#sup"
    if k == "num":
        return str(d[1])
    if k == "str":
        return '"' + quote(d[1]) + '"'
    r = ("" if d[3] else "-") + d[1]
    if d[2] or d[1] == "":
        r += "(" + ",".join(text(a) for a in d[2]) + ("," if len(d[2]) == 1 and d[1] == "" else "") + ")"
    return r


def to_py(d):
    import clingo

    k = d[0]
    if k == "inf":
        return clingo.Infimum
    if k == "sup":
        return clingo.Supremum
    if k == "num":
        return clingo.Number(d[1])
    if k == "str":
        return clingo.String(d[1])
    return clingo.Function(d[1], [to_py(a) for a in d[2]], d[3])


_syms = None


def from_py(s):
    """Reads a symbol through the raw library interface (not through the binding under test)."""
    from _clingo import ffi, lib

    return from_c(s._rep, ffi, lib)


def from_c(rep, ffi, lib):
    t = lib.clingo_symbol_type(rep)
    if t == 0:
        return INF
    if t == 7:
        return SUP
    if t == 1:
        p = ffi.new("int*")
        assert lib.clingo_symbol_number(rep, p)
        return num(p[0])
    p = ffi.new("char**")
    if t == 4:
        assert lib.clingo_symbol_string(rep, p)
        return st(ffi.string(p[0]).decode())
    assert t == 5
    assert lib.clingo_symbol_name(rep, p)
    name = ffi.string(p[0]).decode()
    b = ffi.new("bool*")
    assert lib.clingo_symbol_is_positive(rep, b)
    a = ffi.new("clingo_symbol_t**")
    n = ffi.new("size_t*")
    assert lib.clingo_symbol_arguments(rep, a, n)
    return fun(name, [from_c(a[0][i], ffi, lib) for i in range(n[0])], b[0])


NUMS = [-2147483648, -1, 0, 1, 2, 9, 10, 2147483647]
STRS = ["", "a", "b", "ab", "A", '"', "\\", "\n", "a\\n", "é"]
IDS = ["a", "b", "ab", "_a", "a'", "aB"]


SIZES = list(range(3, 10)) + [15, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257, 300]


def wide():
    """Symbols of every size: arguments, names, strings, nesting."""
    out = []
    for n in SIZES:
        one = [num(1)] * n
        out += [fun("f", one), fun("f", one[1:] + [num(2)]), fun("f", [num(0)] + one[1:]), fun("f", one, False), fun("", one), fun("", one[1:] + [st("")])]
        out += [st("a" * n), st("a" * (n - 1) + "b"), st("\\" * n), fun("a" * n), fun("a" * (n - 1) + "b"), fun("a" * (n - 1) + "b", (), False)]
        for g in ("f", ""):
            d, e = num(1), fun("a", (), False)
            for _ in range(min(n, 30)):
                d, e = fun(g, (d,)), fun(g, (e,))
            out += [d, e]
    return out


def alphabet(big=False):
    """Symbols up to nesting depth 2, without duplicates."""
    d0 = [INF, SUP] + [num(n) for n in NUMS] + [st(s) for s in STRS]
    d0 += [fun(i, (), p) for i in IDS for p in (True, False)] + [tup()]
    small = [num(0), num(1), st("a"), fun("a"), fun("a", (), False), tup(), INF, SUP]
    tiny = [num(1), num(2), fun("a"), st("1")]
    d1 = []
    for n in ("f", "g", "a", "fa", ""):
        for p in (True, False) if n else (True,):
            for a in small:
                d1.append(fun(n, (a,), p))
            for a in tiny[: 4 if big else 3]:
                for b in tiny[: 4 if big else 3]:
                    if n in ("f", "g", ""):
                        d1.append(fun(n, (a, b), p))
    d2 = []
    for n in ("f", "g", ""):
        for a in (fun("f", (num(1),)), fun("f", (num(1),), False), tup(num(1)), tup(num(1), num(2)), fun("g", (fun("f", (num(0),)),)), tup(tup())):
            d2.append(fun(n, (a,)))
            d2.append(fun(n, (a, num(1))))
            d2.append(fun(n, (num(1), a)))
            if n:
                d2.append(fun(n, (a,), False))
    d2.append(fun("f", [num(1)] * 3))
    d2.append(tup(num(1), num(1), num(1)))
    seen, out = set(), []
    for d in d0 + d1 + d2 + wide():
        if d not in seen:
            seen.add(d)
            out.append(d)
    return out


def spec(syms):
    """Construction script for the C++ and Lua probes; symbols may refer to earlier lines only."""
    lines, idx = [], {}

    def add(d):
        if d in idx:
            return idx[d]
        k = d[0]
        if k in ("inf", "sup"):
            l = k
        elif k == "num":
            l = "num %d" % d[1]
        elif k == "str":
            l = "str %s" % (d[1].encode().hex() or "-")
        else:
            a = [add(x) for x in d[2]]
            l = "fun %s %d %d %s" % (d[1].encode().hex() or "-", d[3], len(a), " ".join(map(str, a)))
        idx[d] = len(lines)
        lines.append(l.strip())
        return idx[d]

    for d in syms:
        add(d)
    order = sorted(idx, key=lambda d: idx[d])
    return lines, order
