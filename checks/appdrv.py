"""Application driver for Python: runs clingo.clingo_main in a child process and records what the application sees.

Called as run(spec, args, stdin) -> (exit code, log lines, stdout, stderr)."""
import ctypes
import os
import sys
import tempfile


def make(clingo, spec, log):
    from clingo.application import Application, ApplicationOptions, Flag

    d = {}
    if spec.get("name"):
        d["program_name"] = spec["name"]
    if spec.get("version"):
        d["version"] = spec["version"]
    if spec.get("limit") is not None:
        d["message_limit"] = spec["limit"]
    extra = []
    flags = {"flag": Flag(), "on": Flag(True)}

    def parser(name):
        def parse(v):
            log("parse %s %s" % (name, v))
            if v == "exc":
                raise RuntimeError("parse exception")
            return v != "bad"

        return parse

    if spec.get("opts"):
        def register_options(self, o):
            log("register")
            o.add("Group A", "opt,z", "the option", parser("opt"))
            o.add("Group B", "multi", "the multi option", parser("multi"), True, "<m>")
            o.add("Group A", "arg", "with argument", parser("arg"), argument="<x>")
            o.add_flag("Group B", "flag,y", "the flag", flags["flag"])
            o.add_flag("Group A", "on", "the other flag", flags["on"])
            for i in range(spec.get("extra") or 0):
                extra.append(Flag())
                o.add("Group %d" % (i % 7), "w%d" % i, "option", parser("w%d" % i), i % 2 == 1)
                o.add_flag("Group %d" % (i % 5), "v%d" % i, "flag", extra[i])
            if spec["opts"] == "dup":
                o.add("Group A", "opt", "again", parser("opt"))

        d["register_options"] = register_options
    if spec.get("validate"):
        def validate_options(self):
            log("validate %d%d" % (bool(flags["flag"]), flags["on"].flag))
            if spec["validate"] == "exc":
                raise RuntimeError("validate exception")
            return spec["validate"] != "fail"

        d["validate_options"] = validate_options
    if spec.get("log"):
        def logger(self, code, msg):
            log("log %s %s" % (code.name, msg.strip().replace("\n", "\\n")))

        d["logger"] = logger
    if spec.get("main"):
        def main(self, ctl, files):
            log("main %s" % " ".join(files))
            if spec["main"] == "exc":
                raise RuntimeError("main exception")
            if spec["main"] == "nothing":
                return
            for f in files:
                ctl.load(f)
            if not files:
                ctl.load("-")
            ctl.ground([("base", [])])
            if spec["main"] == "ground":
                return
            for _ in range(2 if spec["main"] == "twice" else 1):
                r = ctl.solve()
                log("result %s" % r)
            if spec.get("extra"):
                log("extra " + "".join("%d" % bool(f) for f in extra))
            log("flags %d%d" % (bool(flags["flag"]), flags["on"].flag))

        d["main"] = main
    if spec.get("printer"):
        def print_model(self, m, printer):
            log("model " + " ".join(sorted(map(str, m.symbols(shown=True)))))
            p = spec["printer"]
            if p == "exc":
                raise RuntimeError("printer exception")
            for i in range(int(p)):
                ctypes.CDLL(None).fflush(None)
                sys.stdout.write("<%d>\n" % i)
                sys.stdout.flush()
                printer()
                ctypes.CDLL(None).fflush(None)

        d["print_model"] = print_model
    form = spec.get("form")
    if form == "duck":  # a class of its own
        return type("App", (), d)()
    if form == "own":  # attributes of the object
        vals = {k: d.pop(k) for k in list(d) if not callable(d[k])}
        o = type("App", (Application,), d)()
        o.__dict__.update(vals)
        return o
    if form == "inherit":  # everything inherited from another application
        return type("App", (type("Base", (Application,), d),), {})()
    return type("App", (Application,), d)()


def run(spec, args, stdin=""):
    import clingo
    from clingo.application import clingo_main

    fs = [tempfile.TemporaryFile() for _ in range(4)]
    fs[0].write(stdin.encode())
    fs[0].seek(0)
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            for i in range(3):
                os.dup2(fs[i].fileno(), i)
            sys.stdout = os.fdopen(1, "w")
            sys.stderr = os.fdopen(2, "w", buffering=1)
            log = lambda s: os.write(fs[3].fileno(), (s + "\n").encode())
            code = clingo_main(make(clingo, spec, log), args)
            sys.stdout.flush()
            log("exit")
        except BaseException as e:
            os.write(fs[3].fileno(), ("EXCEPTION %s\n" % e).encode())
        finally:
            ctypes.CDLL(None).fflush(None)
            os._exit(code & 255)
    st = os.waitpid(pid, 0)[1]
    out = []
    for f in fs[1:]:
        f.seek(0)
        out.append(f.read().decode(errors="replace"))
        f.close()
    fs[0].close()
    return (os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)), out[2].splitlines(), out[0], out[1]
