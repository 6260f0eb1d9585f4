"""Command interpreter over the Python API; icpp.cc and ilua.lua understand the same commands.

Every command is a list of strings and yields one string.  A raised exception yields "E:" + class name."""
import ctypes
import os

# per execution: switches of the reporting thread, deviations from finishing in the background
BOUND = {b"thread": 2, b"async": 3}
OLD = "/eng" not in os.environ.get("LD_LIBRARY_PATH", "")


def b(x):
    return "-" if x is None else "1" if x else "0"


def res(r):
    if str(r) != ("SAT" if r.satisfiable else "UNSAT" if r.unsatisfiable else "UNKNOWN"):
        return "!" + str(r)
    return b(r.satisfiable) + b(r.unsatisfiable) + b(r.unknown) + b(r.exhausted) + b(r.interrupted)


def ints(s, d=","):
    return [int(x) for x in s.split(d) if x]


class Ipy:
    lang = "python"

    def __init__(self):
        import clingo
        from clingo.symbol import parse_term

        self.c = clingo
        self.pt = parse_term
        self.lib = ctypes.CDLL("libclingo.so.4")
        self.keep = []
        self.reset()

    def reset(self):
        self.ctl = None
        self.h = self.hx = None
        self.level = "b"
        self.probe = []
        self.msgs = []
        self.log = []
        self.vars = {}
        self.ustat = []
        self.props = []
        self.plog = []
        self.funs = {}
        self.flog = []

    def close(self):
        self.reset()

    def choices(self, ch):
        """Answers the engine's choices from a Choices object (None: always the first)."""
        if OLD:
            return
        T = ctypes.CFUNCTYPE(ctypes.c_uint, ctypes.c_char_p, ctypes.c_uint)
        used = {}

        def f(tag, n):  # same bounds as in icpp.cc
            if used.get(tag, 0) >= BOUND.get(tag, 1 << 30):
                return 0
            c = ch.choose(n, tag)
            if c:
                used[tag] = used.get(tag, 0) + 1
            return c

        cb = T(f) if ch is not None else T()
        self.keep = [cb]
        self.lib.vp_set_choice(cb)

    def do(self, *cmd):
        try:
            r = getattr(self, "c_" + cmd[0])(*cmd[1:])
            return "ok" if r is None else r
        except Exception as e:
            return "E:" + type(e).__name__ + ":" + str(e)

    def c_bound(self, tag, n):
        BOUND[tag.encode()] = int(n)

    # ---- control
    def c_reset(self):
        self.reset()

    def c_new(self, args="", limit=None):
        self.msgs = []
        a = args.split()
        if limit is None:
            self.ctl = self.c.Control(a, lambda c, m: self.msgs.append((c.name, m)))
        elif limit == "":
            self.ctl = self.c.Control(a)
        else:
            self.ctl = self.c.Control(a, lambda c, m: self.msgs.append((c.name, m)), int(limit))

    def c_msgs(self):
        r, self.msgs = self.msgs, []
        return "\x01".join(a + "|" + m for a, m in r)

    def logger(self, limit):
        if limit == "":
            return {}
        d = {"logger": lambda c, m: self.msgs.append((c.name, m))}
        if limit != "d":
            d["message_limit"] = int(limit)
        return d

    def c_load(self, f):
        self.ctl.load(f)

    def c_inter(self, mode, file):
        """Loads a program in intermediate format; returns the number of syntax trees seen."""
        from clingo import ast

        n = []
        if mode == "load":
            self.ctl.load(file)
        elif mode == "aspif":
            self.ctl.load_aspif([file])
        elif mode == "files":
            ast.parse_files([file], n.append, control=self.ctl)
        elif mode == "nofiles":
            ast.parse_files([file], n.append)
        else:
            with open(file) as f:
                text = f.read()
            if mode == "string":
                ast.parse_string(text, n.append, control=self.ctl)
            elif mode == "nostring":
                ast.parse_string(text, n.append)
            else:
                self.ctl.add("base", [], text)
        return ",".join(str(x) for x in n)

    def c_term(self, text, limit):
        return str(self.pt(text, **self.logger(limit)))

    def c_parse(self, mode, text, limit):
        """Parses without a control; mode str or file."""
        from clingo import ast

        n = []
        if mode == "str":
            ast.parse_string(text, n.append, **self.logger(limit))
        else:
            ast.parse_files(text.split(","), n.append, **self.logger(limit))
        return str(len(n))

    def c_add(self, name, params, text):
        self.ctl.add(name, [x for x in params.split(",") if x], text)

    def c_addast(self, mode, text):
        """Adds the program through the program builder: nodes as parsed, copied, printed and parsed again, ..."""
        import copy
        from clingo import ast as A

        log = lambda c, m: self.msgs.append((c.name, m))
        parse = A.parse_files if mode == "files" else A.parse_string
        text = text.split(",") if mode == "files" else text
        with A.ProgramBuilder(self.ctl) as bld:
            if mode in ("direct", "files"):
                parse(text, bld.add, logger=log)
                return
            nodes = []
            parse(text, nodes.append, logger=log)
            if mode == "copy":
                nodes = [copy.copy(n) for n in nodes]
            elif mode == "deep":
                nodes = [copy.deepcopy(n) for n in nodes]
            elif mode == "trans":
                class T(A.Transformer):
                    def visit_Variable(self, n):
                        return copy.copy(n)

                    def visit_Function(self, n):
                        return copy.deepcopy(n.update(**self.visit_children(n)))

                    def visit_Literal(self, n):
                        return copy.copy(n.update(**self.visit_children(n)))
                nodes = [T().visit(n) for n in nodes]
            elif mode == "unpool":
                nodes = [m for n in nodes for m in n.unpool()]
            elif mode == "print":
                text = "\n".join(map(str, nodes))
                nodes = []
                parse(text, nodes.append, logger=log)
            elif mode == "twice":
                for n in nodes:
                    bld.add(n)
            else:
                assert mode == "late"
            for n in nodes:
                bld.add(n)

    def c_ground(self, parts, ctx=None):
        ps = []
        for p in parts.split(";"):
            s = self.pt(p)
            ps.append((s.name, s.arguments))
        self.ctl.ground(ps, ctx)

    def c_fun(self, name, shape, syms=""):
        """Defines an external function; the values are separated by \\x03."""
        self.funs[name] = shape, [self.pt(x) for x in syms.split("\x03") if x]

    def call(self, name, args):
        self.flog.append("%s %s" % (name, "\x03".join(map(str, args))))
        shape, v = self.funs[name]
        assert all(type(x).__name__ == "Symbol" for x in args)
        return {
            "one": lambda: v[0],
            "list": lambda: list(v),
            "tuple": lambda: tuple(v),
            "gen": lambda: (x for x in v),
            "iter": lambda: iter(v),
            "dict": lambda: dict.fromkeys(v),
            "args": lambda: list(args),
            "none": lambda: None,
            "str": lambda: "abc",
            "bad": lambda: v + [1],
            "int": lambda: 1,
            "raise": lambda: (_ for _ in ()).throw(LookupError("lookup %s" % name)),
            "late": lambda: self.late(v),
        }[shape]()

    def late(self, v):
        yield from v
        raise LookupError("late")

    def c_funlog(self):
        r = "\x01".join(self.flog)
        self.flog = []
        return r

    def c_groundx(self, parts):
        def method(name):
            return lambda c, *args: self.call(name, args)

        self.c_ground(parts, type("Context", (), {n: method(n) for n in self.funs})())

    def truth(self, v):
        return {"t": True, "f": False, "u": None}[v]

    def lit(self, s):
        return self.ctl.symbolic_atoms[self.pt(s)].literal

    def c_ext(self, s, v):
        self.ctl.assign_external(self.pt(s), self.truth(v))

    def c_extl(self, s, v):
        self.ctl.assign_external(self.lit(s), self.truth(v))

    def c_extn(self, s, v):
        self.ctl.assign_external(-self.lit(s), self.truth(v))

    def c_rel(self, s):
        self.ctl.release_external(self.pt(s))

    def c_reln(self, s):
        self.ctl.release_external(-self.lit(s))

    def c_rell(self, s):
        self.ctl.release_external(self.lit(s))

    def c_const(self, n):
        r = self.ctl.get_const(n)
        return "-" if r is None else str(r)

    def c_conflict(self):
        return b(self.ctl.is_conflicting)

    def c_cleanup(self):
        self.ctl.cleanup()

    def c_encl(self, v):
        self.ctl.enable_cleanup = v == "1"
        return b(self.ctl.enable_cleanup)

    def c_enum(self, v):
        self.ctl.enable_enumeration_assumption = v == "1"
        return b(self.ctl.enable_enumeration_assumption)

    # ---- atoms
    def atom(self, a):
        return "%s/%s%s/%d" % (a.symbol, b(a.is_fact), b(a.is_external), a.literal)

    def c_size(self):
        return str(len(self.ctl.symbolic_atoms))

    def c_atoms(self):
        return " ".join(self.atom(a) for a in self.ctl.symbolic_atoms)

    def c_bysig(self, name, ar, pos):
        it = self.ctl.symbolic_atoms.by_signature(name, int(ar), pos == "1") if pos != "_" else self.ctl.symbolic_atoms.by_signature(name, int(ar))
        return " ".join(self.atom(a) for a in it)

    def c_sigs(self):
        return " ".join("%s/%d/%s" % (n, a, b(p)) for n, a, p in self.ctl.symbolic_atoms.signatures)

    def c_lookup(self, s):
        a = self.ctl.symbolic_atoms[self.pt(s)]
        if (a is not None) != (self.pt(s) in self.ctl.symbolic_atoms):
            return "E:in"
        return "-" if a is None else self.atom(a)

    def c_match(self, s, name, ar, pos=None):
        a = self.ctl.symbolic_atoms[self.pt(s)]
        if pos is not None:
            return b(a.match(name, int(ar), pos == "1"))
        return b(a.match(name, int(ar)))

    def c_atoms2(self):
        # nested iterations are independent of each other
        sa = self.ctl.symbolic_atoms
        out = []
        it = iter(sa)
        for a in sa:
            if self.atom(next(it)) != self.atom(a) or self.atom(sa[a.symbol]) != self.atom(a):
                return "E:iterators"
            if a.symbol not in sa or len(list(sa)) != len(sa):
                return "E:in"
            out.append(self.atom(a))
        if "a" in sa or 1 in sa:
            return "E:contains"
        return " ".join(out)

    # ---- solving
    def toks(self, s):
        r = []
        for t in s.split():
            if t[0] == "+":
                r.append((self.pt(t[1:]), True))
            elif t[0] == "-" and not t[1:].isdigit():
                r.append((self.pt(t[1:]), False))
            elif t[0] == "#":
                r.append(self.lit(t[1:]))
            elif t[0] == "~":
                r.append(-self.lit(t[1:]))
            else:
                r.append(int(t))
        return r

    def c_level(self, x, probe=""):
        self.level = x
        self.probe = probe.split()

    def model(self, m):
        f = lambda **k: ",".join(sorted(map(str, m.symbols(**k))))
        r = f(atoms=True)
        if self.level == "f":
            names = ["atoms", "terms", "shown", "theory", "complement"]
            r += "|" + ";".join(f(**{n: bool(k >> i & 1) for i, n in enumerate(names)}) for k in range(32))
            r += "|" + str(m)
            r += "|" + ",".join(map(str, m.cost)) + "|" + ("" if OLD else ",".join(map(str, m.priority)))
            r += "|%d %d %s %s" % (m.number, m.thread_id, b(m.optimality_proven), m.type.name)
            r += "|" + "".join(b(m.contains(self.pt(s))) for s in self.probe)
            sa = m.context.symbolic_atoms
            for s in self.probe:
                a = sa[self.pt(s)]
                r += " -" if a is None else " " + b(m.is_true(a.literal)) + b(m.is_true(-a.literal)) + ("" if OLD else b(m.is_consequence(a.literal)))
        return r

    def hook(self, m, hook, out):
        """Returns false to stop."""
        self.k += 1
        go = None if self.k % 2 else True
        for part in hook.split(";"):
            if not part:
                continue
            k, _, act = part.partition(":")
            if int(k) not in (0, self.k):
                continue
            a, _, arg = act.partition(" ")
            if a == "stop":
                go = False
            elif a == "none":
                go = None
            elif a == "true":
                go = True
            elif a == "clause":
                m.context.add_clause(self.toks(arg))
            elif a == "nogood":
                m.context.add_nogood(self.toks(arg))
            elif a == "extend":
                m.extend([self.pt(s) for s in arg.split()])
            elif a == "again":
                out.append("M" + self.model(m))
            elif a == "interrupt":
                self.ctl.interrupt()
            elif a == "raise":
                raise KeyError("hook")
        return go

    def c_solve(self, mode, ass="", hook=""):
        out = []
        self.k = 0
        A = self.toks(ass)
        kw = {}
        events = "e" in mode
        if events:
            kw["on_finish"] = lambda r: out.append("F" + res(r))
            kw["on_core"] = lambda c: out.append("K" + ",".join(map(str, c)))
            kw["on_unsat"] = lambda l: out.append("U" + ",".join(map(str, l)))
            if not OLD:
                kw["on_last"] = lambda m: out.append("L" + self.model(m))

        def on_model(m):
            out.append("M" + self.model(m))
            return self.hook(m, hook, out)

        if getattr(self, "us", None):
            kw["on_statistics"] = self.on_stats
        if mode[0] == "p":
            r = self.ctl.solve(A, **kw)
        elif mode[0] == "c":
            r = self.ctl.solve(A, on_model=on_model, **kw)
        elif mode[0] == "a":
            with self.ctl.solve(A, on_model=on_model, async_=True, **kw) as h:
                h.wait()
                r = h.get()
                if not events and r.unsatisfiable:
                    out.append("K" + ",".join(map(str, h.core())))
        elif mode[0] == "y":
            with self.ctl.solve(A, yield_=True, async_="A" in mode, **kw) as h:
                for m in h:
                    out.append("M" + self.model(m))
                    if self.hook(m, hook, out) is False:
                        break
                r = h.get()
                if not events and r.unsatisfiable:
                    out.append("K" + ",".join(map(str, h.core())))
        elif mode[0] == "m":
            with self.ctl.solve(A, yield_=True, async_="A" in mode, **kw) as h:
                while True:
                    h.resume()
                    m = h.model()
                    if m is None:
                        break
                    out.append("M" + self.model(m))
                    if self.hook(m, hook, out) is False:
                        break
                r = h.get()
        return "\x01".join(out + ["R" + res(r)])

    # ---- handles
    def c_hstart(self, mode, ass=""):
        self.hx = self.ctl.solve(self.toks(ass), yield_="y" in mode, async_="A" in mode)
        self.h = self.hx.__enter__()

    def c_hresume(self):
        self.h.resume()

    def c_hmodel(self):
        m = self.h.model()
        return "-" if m is None else "M" + self.model(m)

    def c_hnext(self):
        m = next(iter(self.h), None)
        return "-" if m is None else "M" + self.model(m)

    def c_hlast(self):
        m = self.h.last()
        return "-" if m is None else "M" + self.model(m)

    def c_hwait(self, t="_"):
        if t == "_":
            self.h.wait()
            return "1"
        return b(self.h.wait(float(t)))

    def c_hget(self):
        return res(self.h.get())

    def c_hcore(self):
        return ",".join(map(str, self.h.core()))

    def c_hcancel(self):
        self.h.cancel()

    def c_hclose(self):
        x, self.hx, self.h = self.hx, None, None
        x.__exit__(None, None, None)

    def c_hdrop(self):
        # leaves the scope with an exception
        x, self.hx, self.h = self.hx, None, None
        try:
            with x:
                raise KeyError("drop")
        except KeyError:
            pass

    # ---- configuration
    def conf(self, path):
        c = self.ctl.configuration
        for p in path.split("."):
            if p:
                c = c[int(p)] if p.lstrip("-").isdigit() else getattr(c, p)
        return c

    def c_cget(self, path):
        r = self.conf(path)
        return "-" if r is None else ("=" + r if isinstance(r, str) else "node")

    def c_cset(self, path, v):
        h, _, t = path.rpartition(".")
        setattr(self.conf(h), t, v)

    def c_ckeys(self, path):
        k = self.conf(path).keys
        return "-" if k is None else " ".join(k)

    def c_clen(self, path):
        c = self.conf(path)
        return str(len(c)) + b(c.is_array)

    def c_cdump(self, path="", d=""):
        out = []

        def rec(c, p):
            ks = c.keys
            out.append(p + " #" + (str(len(c)) if c.is_array else "-") + ("" if ks is None else " " + " ".join(ks)))
            for k in ks or []:
                q = p + "." + k
                if d == "1":
                    out.append(q + " ?" + c.description(k))
                x = getattr(c, k)
                if x is None or isinstance(x, str):
                    out.append(q + " " + ("-" if x is None else "=" + x))
                else:
                    rec(x, q)
            if c.is_array:
                for i, x in enumerate(c):
                    rec(c[i] if i % 2 else x, p + ".%d" % i)

        rec(self.conf(path), path)
        return "\x01".join(out)

    def c_cdesc(self, path):
        h, _, t = path.rpartition(".")
        return self.conf(h).description(t)

    # ---- statistics
    def tree(self, x):
        if isinstance(x, dict):
            return "{" + ",".join("%s:%s" % (k, self.tree(x[k])) for k in sorted(x)) + "}"
        if isinstance(x, list):
            return "[" + ",".join(map(self.tree, x)) + "]"
        return "%g" % x

    def c_ustats(self, *a):
        """Trees merged into the user statistics of the following searches; no arguments: none."""
        self.us = a
        self.ulog = []

    def c_ulog(self):
        r, self.ulog = self.ulog, []
        return "\x01".join(r)

    def utree(self, s):
        def rec(i):
            if s[i] == "{":
                r = {}
                i += 1
                while s[i] != "}":
                    j = s.index(":", i)
                    r[s[i:j]], i = rec(j + 1)
                    i += s[i] == ","
                return r, i + 1
            if s[i] == "[":
                r = []
                i += 1
                while s[i] != "]":
                    x, i = rec(i)
                    r.append(x)
                    i += s[i] == ","
                return r, i + 1
            j = i
            while j < len(s) and s[j] not in ",]}":
                j += 1
            t = s[i:j]
            if t[0] == "+":
                return (lambda old, v=float(t[1:]): v if old is None else old + v), j
            return (float(t) if "." in t or "e" in t else int(t)), j

        return rec(0)[0]

    def uview(self, x):
        """The view of mutable statistics, with all ways to look at them."""
        T = self.c.statistics
        if isinstance(x, T.StatisticsMap):
            ks = list(x.keys())
            assert list(x) == ks and len(x) == len(ks) == len(set(ks)), "keys"
            vs = [self.uview(x[k]) for k in ks]
            assert [self.uview(v) for v in x.values()] == vs and [(k, self.uview(v)) for k, v in x.items()] == list(zip(ks, vs)), "items"
            assert all(k in x for k in ks) and "zz" not in x and 1 not in x and x.get("zz") is None and x.get("zz", 3) == 3, "contains"
            for f, e in ((lambda: x["zz"], KeyError), (lambda: x.__delitem__("zz"), NotImplementedError)):
                try:
                    f()
                    assert False, "error"
                except e:
                    pass
            return "{" + ",".join(sorted(map("%s:%s".__mod__, zip(ks, vs)))) + "}"
        if isinstance(x, T.StatisticsArray):
            n = len(x)
            vs = [self.uview(x[i]) for i in range(n)]
            assert [self.uview(v) for v in x] == vs and [self.uview(v) for v in reversed(x)] == vs[::-1], "elements"
            for f, e in ((lambda: x[n], IndexError), (lambda: x[-1], IndexError), (lambda: x.__delitem__(0), NotImplementedError), (lambda: x.insert(0, 1), NotImplementedError), (lambda: x + [1], NotImplementedError)):
                try:
                    f()
                    assert False, "error"
                except e:
                    pass
            return "[" + ",".join(vs) + "]"
        assert isinstance(x, float), type(x)
        return "%g" % x

    def on_stats(self, step, accu):
        try:
            self.on_stats_(step, accu)
        except BaseException as e:  # (a failing handler ends the process by design)
            self.ulog.append("E:%s:%s" % (type(e).__name__, e))

    def on_stats_(self, step, accu):
        for x, t in zip((step, accu), self.us):
            if t[0] == "*":
                # element by element instead of update
                for k, v in self.utree(t[1:]).items():
                    x[k] = v
                    if isinstance(v, list) and len(v) > len(x[k]):
                        self.ulog.append("size")
            elif t[0] == "!":
                # arrays by append, extend and in-place concatenation
                for k, v in self.utree(t[1:]).items():
                    if k not in x:
                        x[k] = []
                    a = x[k]
                    if v:
                        a.append(v[0])
                    a.extend(v[1:2])
                    a += v[2:]
            else:
                x.update(self.utree(t))
        self.ulog.append(self.uview(step) + "/" + self.uview(accu))

    def c_stats(self, path=""):
        x = self.ctl.statistics
        for p in path.split("."):
            if p:
                x = x[int(p) if isinstance(x, list) and p.isdigit() else p]
        return self.tree(x)

    # ---- backend
    def c_be(self, stmts):
        T = self.c.backend
        out = []
        V = self.vars

        def lits(s):
            return [(-V[x[1:]] if x[0] == "-" else V[x]) for x in s.split(",") if x]

        def wl(s):
            r = []
            for x in s.split(","):
                if x:
                    l, w = x.split("=")
                    r.append((lits(l)[0], int(w)))
            return r

        def opt(*a):
            return [x for x in a if x != "_"]

        with self.ctl.backend() as be:
            for st in stmts.split(";"):
                f = st.split()
                a = [("" if x == "." else x) for x in f[1:]]
                k = f[0]
                if k == "atom":
                    V[a[0]] = be.add_atom(self.pt(a[1])) if len(a) > 1 else be.add_atom()
                elif k == "rule":  # head body choice
                    if len(a) == 1:
                        be.add_rule(lits(a[0]))
                    elif len(a) == 2:
                        be.add_rule(lits(a[0]), lits(a[1]))
                    else:
                        be.add_rule(lits(a[0]), lits(a[1]), a[2] == "1")
                elif k == "wrule":  # head lower body choice
                    if len(a) == 3:
                        be.add_weight_rule(lits(a[0]), int(a[1]), wl(a[2]))
                    else:
                        be.add_weight_rule(lits(a[0]), int(a[1]), wl(a[2]), a[3] == "1")
                elif k == "min":
                    be.add_minimize(int(a[0]), wl(a[1]))
                elif k == "proj":
                    be.add_project(lits(a[0]))
                elif k == "ext":
                    if len(a) == 1:
                        be.add_external(V[a[0]])
                    else:
                        be.add_external(V[a[0]], getattr(T.TruthValue, {"t": "True_", "f": "False_", "u": "Free", "r": "Release"}[a[1]]))
                elif k == "assume":
                    be.add_assume(lits(a[0]))
                elif k == "heu":  # atom type bias prio cond
                    be.add_heuristic(V[a[0]], getattr(T.HeuristicType, {"true": "True_", "false": "False_"}.get(a[1], a[1].capitalize())), int(a[2]), int(a[3]), lits(a[4]))
                elif k == "edge":
                    be.add_acyc_edge(int(a[0]), int(a[1]), lits(a[2]))
                elif k == "tn":
                    V[a[0]] = be.add_theory_term_number(int(a[1]))
                elif k == "ts":
                    V[a[0]] = be.add_theory_term_string(a[1])
                elif k == "tf":
                    V[a[0]] = be.add_theory_term_function(a[1], lits(a[2]))
                elif k == "tq":
                    V[a[0]] = be.add_theory_term_sequence(getattr(T.TheorySequenceType, a[1]), lits(a[2]))
                elif k == "ty":
                    V[a[0]] = be.add_theory_term_symbol(self.pt(a[1]))
                elif k == "te":
                    V[a[0]] = be.add_theory_element(lits(a[1]), lits(a[2]))
                elif k == "ta":  # var term elements op rhs atom
                    at = {} if len(a) < 6 else {"atom_id_or_zero": 0 if a[5] == "0" else V[a[5]]}
                    if len(a) > 3 and a[3] != "_":
                        V[a[0]] = be.add_theory_atom_with_guard(V[a[1]], lits(a[2]), a[3], V[a[4]], **at)
                    else:
                        V[a[0]] = be.add_theory_atom(V[a[1]], lits(a[2]), **at)
                elif k == "raise":
                    raise KeyError("be")
                if f[0] in ("atom", "tn", "ts", "tf", "tq", "ty", "te", "ta"):
                    out.append(str(V[a[0]]))
        return " ".join(out)

    # ---- theory
    def term(self, t):
        n = t.type.name
        r = n[0] + n[1] if n != "Symbol" else "Sy"
        if n == "Number":
            r += str(t.number)
        if n in ("Symbol", "Function"):
            r += "'" + t.name + "'"
        if n in ("Function", "Tuple", "Set", "List"):
            r += "(" + " ".join(self.term(x) for x in t.arguments) + ")"
        return r + "<" + str(t) + ">"

    def theory(self, atoms):
        out = []
        for a in atoms:
            s = self.term(a.term) + "{"
            s += "; ".join(",".join(map(self.term, e.terms)) + ":" + ",".join(map(str, e.condition)) + ":" + str(e.condition_id) + "<" + str(e) + ">" for e in a.elements) + "}"
            g = a.guard
            s += ("|" + g[0] + "|" + self.term(g[1])) if g is not None else "|"
            s += "|" + str(a.literal) + "<" + str(a) + ">"
            out.append(s)
        return "\x01".join(out)

    def c_theory2(self):
        """The same with unambiguous structure, as JSON."""
        import json

        def t(x):
            n = x.type.name
            return [n, str(x), x.number if n == "Number" else x.name if n in ("Symbol", "Function") else "", [] if n in ("Number", "Symbol") else [t(y) for y in x.arguments]]

        return json.dumps([[t(a.term), [[[t(x) for x in e.terms], e.condition, e.condition_id, str(e)] for e in a.elements], [a.guard[0], t(a.guard[1])] if a.guard is not None else [], a.literal, str(a)] for a in self.ctl.theory_atoms])

    def c_theorycmp(self):
        """Comparisons between types, terms, elements and atoms of the theory."""
        import json

        def t(x):
            n = x.type.name
            return [n, str(x), x.number if n == "Number" else x.name if n in ("Symbol", "Function") else "", [] if n in ("Number", "Symbol") else [t(y) for y in x.arguments]]

        terms, els, atoms = [], [], []

        def rec(x):
            terms.append((t(x), x))
            if x.type.name not in ("Number", "Symbol"):
                for y in x.arguments:
                    rec(y)

        for a in self.ctl.theory_atoms:
            atoms.append(([len(atoms)], a))
            rec(a.term)
            for e in a.elements:
                els.append(([[t(x) for x in e.terms], e.condition, e.condition_id], e))
                for x in e.terms:
                    rec(x)
            if a.guard:
                rec(a.guard[1])
        cmp = lambda x, y: "".join(map(b, (x == y, x != y, x < y, x <= y, x > y, x >= y))) if x != y or hash(x) == hash(y) else "hash"
        T = self.c.TheoryTermType
        types = [([n], getattr(T, n)) for n in ("Tuple", "List", "Set", "Function", "Number", "Symbol")]
        return json.dumps([[[k for k, _ in l[:12]], [[cmp(x, y) for _, y in l[:12]] for _, x in l[:12]]] for l in (types, terms, els, atoms)])

    def c_theory(self):
        return self.theory(self.ctl.theory_atoms)

    # ---- observer
    def c_obs(self, replace="_", skip=""):
        I = self

        def j(x):
            if isinstance(x, bool):
                return b(x)
            if isinstance(x, (list, tuple)):
                return "[" + ",".join(map(j, x)) + "]"
            n = getattr(x, "name", None)
            if isinstance(x, (self.c.backend.TruthValue, self.c.backend.HeuristicType)):
                return n.rstrip("_")
            return str(x)

        class Obs(*(() if "duck" in skip.split(",") else (self.c.Observer,))):
            pass

        for n in ["init_program", "begin_step", "end_step", "rule", "weight_rule", "minimize", "project", "output_atom", "output_term", "external", "assume", "heuristic", "acyc_edge", "theory_term_number", "theory_term_string", "theory_term_compound", "theory_element", "theory_atom", "theory_atom_with_guard"]:
            if n in skip.split(","):
                continue

            def f(s, *a, n=n):
                I.log.append(n + " " + " ".join(map(j, a)) if a else n)

            setattr(Obs, n, f)
        o = Obs()
        self.keepobs = o
        self.ctl.register_observer(o) if replace == "_" else self.ctl.register_observer(o, replace == "1")

    def c_obslog(self):
        r, self.log = self.log, []
        return "\x01".join(r)


    # ---- propagators
    def c_prop(self, init, rules, flags):
        """Registers a propagator that logs all it sees and acts as told.

        init: actions done in init; rules: EVENT[times]:CONDITION:ACTION; flags: the callbacks it has."""
        p = Prop(self, [x.split(" ") for x in init.split(";") if x], [x.split(":") for x in rules.split(";") if x], len(self.props))
        cls = type("P", () if "k" in flags else (self.c.Propagator,), {n: getattr(Prop, n) for n in ("init", "propagate", "undo", "check", "decide") if n[0] in flags})
        o = cls()
        o.__dict__.update(p.__dict__)
        for n in ("lit", "lits", "out", "cond", "act", "view"):
            setattr(o, n, getattr(Prop, n).__get__(o))
        self.props.append(o)
        self.ctl.register_propagator(o)

    def c_proplog(self):
        r, self.plog = self.plog, []
        return "\x01".join(r)


class Prop:
    def __init__(self, I, init, rules, n):
        self.I = I
        self.ini = init
        self.rules = rules
        self.n = n
        self.fired = {}

    def lit(self, x):
        return -self.lit(x[1:]) if x[0] == "-" else self.V[x]

    def lits(self, x):
        return [] if x == "." else [self.lit(y) for y in x.split(",")]

    def out(self, x):
        self.I.plog.append("%d%s" % (self.n, x))

    def view(self, a):
        dl = a.decision_level
        r = "%d %d %s%s|" % (dl, a.root_level, b(a.has_conflict), b(a.is_total))
        xs = list(a)
        mx = 0
        n = len(a)
        if [a[i] for i in range(n)] != xs or [a[i - n] for i in range(n)] != xs or list(a[1:]) != xs[1:] or list(a[::-1]) != xs[::-1]:
            r += "!at"
        for i in (n, -n - 1):
            try:
                a[i]
                r += "!index"
            except IndexError:
                pass
        for x in xs:
            mx = max(mx, abs(x))
            r += "%d:" % x
            for y in (x, -x):
                v = a.value(y)
                r += b(v) + b(a.is_true(y)) + b(a.is_false(y)) + b(a.is_fixed(y)) + b(a.has_literal(y))
                if (v is None) != a.is_free(y):
                    r += "!free"
                if v is not None:
                    r += str(a.level(y))
                r += ","
            r += " "
        r += "!" if a.has_literal(mx + 3) else ""
        r += "|" + "".join("%d " % a.decision(l) for l in range(1, dl + 1)) + "|"
        t = a.trail
        ts = list(t)
        n = len(t)
        if [t[i] for i in range(n)] != ts or [t[i - n] for i in range(n)] != ts or list(t[:-1]) != ts[:-1] or list(t[1::2]) != ts[1::2]:
            r += "!trail"
        for i in (n, -n - 1):
            try:
                t[i]
                r += "!index"
            except IndexError:
                pass
        r += "".join("%d " % x for x in ts) + "|"
        for l in range(dl + 1):
            p, q = t.begin(l), t.end(l)
            r += "%d-%d " % (p, q)
            if list(t[p:q]) != ts[p:q]:
                r += "!level"
        return r

    def init(self, I):
        self.V = {"T": 1}
        a = I.assignment
        r = "I%d %s " % (I.number_of_threads, I.check_mode.name[0].replace("O", "N"))
        names = []
        for x in I.symbolic_atoms:
            sl = I.solver_literal(x.literal)
            names.append("%s=%d/%d" % (x.symbol, sl, I.solver_literal(-x.literal)))
            self.V[str(x.symbol)] = sl
        r += " ".join(sorted(names)) + "|"
        for i, t in enumerate(I.theory_atoms):
            sl = self.V["&%d" % i] = I.solver_literal(t.literal)
            r += " %d" % sl
            for j, e in enumerate(t.elements):
                sl = self.V["&%d.%d" % (i, j)] = I.solver_literal(e.condition_id)
                r += ":%d" % sl
        self.out(r + "|" + self.view(a))
        P = self.I.c.propagator
        for w in self.ini:
            k = w[0]
            res = True
            if k == "watch":
                I.add_watch(self.lit(w[1])) if len(w) < 3 else I.add_watch(self.lit(w[1]), int(w[2]))
            elif k == "unwatch":
                I.remove_watch(self.lit(w[1])) if len(w) < 3 else I.remove_watch(self.lit(w[1]), thread_id=int(w[2]))
            elif k == "freeze":
                I.freeze_literal(self.lit(w[1]))
            elif k == "lit":
                self.V[w[1]] = I.add_literal() if len(w) < 3 else I.add_literal(w[2] == "1")
            elif k == "clause":
                res = I.add_clause(self.lits(w[1]))
            elif k == "wc":
                wl = [] if w[2] == "." else [(self.lit(x.split("=")[0]), int(x.split("=")[1])) for x in w[2].split(",")]
                rest = [int(w[3])] + ([int(w[4])] if len(w) > 4 else []) + ([w[5] == "1"] if len(w) > 5 else [])
                res = I.add_weight_constraint(self.lit(w[1]), wl, *rest)
            elif k == "min":
                I.add_minimize(self.lit(w[1]), *map(int, w[2:]))
            elif k == "prop":
                res = I.propagate()
            elif k == "cmode":
                I.check_mode = {"N": P.PropagatorCheckMode.Off, "T": P.PropagatorCheckMode.Total, "F": P.PropagatorCheckMode.Fixpoint, "B": P.PropagatorCheckMode.Both}[w[1]]
                self.out("m" + I.check_mode.name[0].replace("O", "N"))
            elif k == "umode":
                self.out("u" + I.undo_mode.name[0])
                I.undo_mode = {"D": P.PropagatorUndoMode.Default, "A": P.PropagatorUndoMode.Always}[w[1]]
                self.out("u" + I.undo_mode.name[0])
            else:
                raise RuntimeError(k)
            if res not in (True, False) or not isinstance(res, bool):
                self.out("!bool")
            self.out("i" + " ".join(w) + ("=%d" % self.V[w[1]] if k == "lit" else "") + ("" if res else "=0") + "|" + self.view(a))
            if not res:
                break

    def cond(self, a, f):
        return all(map(a.is_true, self.lits(f[1])))

    def act(self, ev, C):
        a = C.assignment
        for i, f in enumerate(self.rules):
            if f[0][0] != ev or not self.cond(a, f) or f[0][1:] and self.fired.get(i, 0) >= int(f[0][1:]):
                continue
            self.fired[i] = self.fired.get(i, 0) + 1
            w = f[2].split(" ")
            k = w[0]
            res = True
            x = ""
            if k in ("clause", "nogood"):
                l = self.lits(w[1])
                if k == "nogood":
                    l = tuple(-y for y in l) and l
                fl = w[2] if len(w) > 2 else ""
                kw = {}
                if "t" in fl:
                    kw["tag"] = True
                if "l" in fl:
                    kw["lock"] = True
                res = (C.add_clause if k == "clause" else C.add_nogood)(l, **kw)
            elif k == "lit":
                self.V[w[1]] = C.add_literal()
                x = "=%d" % self.V[w[1]]
            elif k == "watch":
                C.add_watch(self.lit(w[1]))
            elif k == "unwatch":
                C.remove_watch(self.lit(w[1]))
            elif k == "has":
                x = "=" + b(C.has_watch(self.lit(w[1])))
            elif k == "prop":
                res = C.propagate()
            else:
                raise RuntimeError(k)
            self.out("r%d%s%s|%s" % (i, x, "" if res else "=0", self.view(a)))
            if not res:
                break

    def propagate(self, C, changes):
        self.out("P%d%s|%s" % (C.thread_id, "".join(" %d" % x for x in changes), self.view(C.assignment)))
        self.act("p", C)

    def undo(self, tid, a, changes):
        self.out("U%d%s|%s" % (tid, "".join(" %d" % x for x in changes), self.view(a)))

    def check(self, C):
        self.out("C%d|%s" % (C.thread_id, self.view(C.assignment)))
        self.act("c", C)

    def decide(self, tid, a, fb):
        r = fb
        for i, f in enumerate(self.rules):
            if f[0][0] != "d" or not self.cond(a, f) or f[0][1:] and self.fired.get(i, 0) >= int(f[0][1:]):
                continue
            self.fired[i] = self.fired.get(i, 0) + 1
            w = f[2].split(" ")
            if w[0] == "none":
                r = 0
                break
            if w[0] == "fb":
                break
            free = [l for l in self.lits(w[1]) if a.is_free(l)]
            if free:
                r = free[0]
                break
        self.out("D%d %d %d|%s" % (tid, fb, r, self.view(a)))
        return r


class Proc:
    """An interpreter in another process, speaking the same commands."""

    def __init__(self, argv, lang):
        import subprocess

        self.lang = lang
        self.ch = None
        self.start = lambda: subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(os.environ["VP_STDERR"], "ab") if "VP_STDERR" in os.environ else subprocess.DEVNULL, bufsize=0)
        self.p = self.start()
        self.buf = b""

    def choices(self, ch):
        self.ch = ch
        if not OLD and self.lang in ("c++", "c", "lua"):
            self.raw("choices", ",".join(map(str, ch.prefix)) if ch is not None else "")

    def settle(self):
        """After an execution under choices: learn what was asked."""
        if self.ch is not None and not OLD and self.lang in ("c++", "c", "lua"):
            for x in self.raw("path").split():
                c, n = x.split(":")
                self.ch.path.append((int(c), int(n)))

    def raw(self, *cmd):
        line = "\t".join(x.replace("\n", "\x02") for x in cmd) + "\n"
        self.p.stdin.write(line.encode())
        while b"\n" not in self.buf:
            d = os.read(self.p.stdout.fileno(), 1 << 16)
            if not d:
                rc = self.p.wait()
                self.p = self.start()
                self.buf = b""
                raise Died("%s interpreter died with status %s in command %r" % (self.lang, rc, cmd))
            self.buf += d
        r, _, self.buf = self.buf.partition(b"\n")
        return r.decode("utf-8", "replace").replace("\x02", "\n")

    def do(self, *cmd):
        return self.raw(*cmd)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


class Died(Exception):
    pass


def make(lang):
    from vplib import B, VERIF

    lib = "sys" if OLD else "eng"
    if lang == "python":
        return Ipy()
    if lang == "c++":
        return Proc([f"{B}/{lib}/drv/icpp"], "c++")
    if lang == "c":
        return Proc([f"{B}/{lib}/drv/capi"], "c")
    if lang == "lua":
        return Proc(["lua5.4", f"{VERIF}/checks/ilua.lua"], "lua")
    raise KeyError(lang)
