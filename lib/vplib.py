"""Common machinery of the checks: exhaustive explorer, workers, reporting, evidence.

A check is a module /verif/checks/<id>.py with
  PID, LEVEL, BUILD (ninja targets), RULE
  tasks(tier) -> list of Task
Task kinds
  Py(fn, *args, env=.., preload=..)  run checks.<id>.<fn>(ctx, *args) in a worker process
  Exe(argv, env=..)                  run a driver printing VIOL/COV/SAMPLE lines
Every worker journals the execution it is about to run, so that a crash or a hang is
reported as a violation together with the execution that caused it.
"""
import hashlib
import importlib
import json
import mmap
import os
import subprocess
import sys
import tempfile
import time
import traceback

LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
REPO = os.environ.get("VP_REPO", "/repo")
B = os.path.join(VERIF, ".build")
sys.path.insert(0, LIB)
NPROC = int(os.environ.get("VP_NPROC", "8"))


# ---------------------------------------------------------------- explorer
class Choices:
    """One execution: replays a prefix of choices, then always takes 0."""

    def __init__(self, prefix):
        self.prefix = prefix
        self.path = []  # (choice, n)
        self.labels = []

    def choose(self, n, label=""):
        i = len(self.path)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise RuntimeError("diverged while replaying: choice %d of %d at %d (%s)" % (c, n, i, label))
        else:
            c = 0
        self.path.append((c, n))
        return c

    def pick(self, seq, label=""):
        return seq[self.choose(len(seq), label)]

    def flag(self, label=""):
        return self.choose(2, label) == 1


class Ctx:
    """Passed to check functions running in a worker."""

    def __init__(self, jf=None, tier="quick"):
        self.jf = jf
        self.tier = tier
        self.execs = 0
        self.transitions = 0
        self.states = set()
        self.nontrivial = 0
        self.traces = 0
        self.samples = []
        self.viols = {}
        self.n = 0
        self.cur = ""
        self.task = None
        self.extra = {}

    def journal(self, text):
        self.n += 1
        self.cur = text
        if self.jf is not None:
            b = ("%d\n%s" % (self.n, text)).encode("utf-8", "replace")[:8000]
            self.jf[0 : len(b) + 1] = b + b"\0"

    def state(self, s):
        self.states.add(hashlib.blake2b(repr(s).encode(), digest_size=8).digest())

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s if isinstance(s, (str, int, list, dict)) else repr(s))

    def fail(self, key, desc, replay=None):
        """Report a violation; key identifies the kind (stable), desc the instance."""
        if key not in self.viols and len(self.viols) < 40:
            self.viols[key] = {"key": key, "desc": str(desc)[:2000], "replay": replay if replay is not None else self.cur}

    def eq(self, key, got, want, what=""):
        if got != want:
            self.fail(key, "%s: got %r, expected %r [%s]" % (what, got, want, self.cur))
            return False
        return True

    def check(self, cond, key, what=""):
        if not cond:
            self.fail(key, "%s [%s]" % (what, self.cur))
        return bool(cond)

    def explore(self, name, body, prefix=(), limit=None, catch=True):
        """Enumerates every execution of body(choices); returns their number.

        Depth first over choice vectors, every alternative of every choice point."""
        base = list(prefix)
        stack = [base]
        count = 0
        while stack:
            pre = stack.pop()
            ch = Choices(pre)
            self.journal("%s %s" % (name, pre))
            try:
                body(ch)
            except Exception as e:  # an unexpected exception is a violation of whatever body checks
                if not catch:
                    raise
                self.fail(
                    "%s: unexpected %s" % (name, type(e).__name__),
                    "%s %s: %s\n%s" % (name, [c for c, _ in ch.path], e, traceback.format_exc()[-1500:]),
                    "%s %s" % (name, [c for c, _ in ch.path]),
                )
            count += 1
            self.execs += 1
            self.transitions += max(0, len(ch.path) - max(0, len(pre) - 1))
            for i in range(len(ch.path) - 1, len(pre) - 1, -1):
                c, n = ch.path[i]
                head = [x for x, _ in ch.path[:i]]
                for alt in range(n - 1, c, -1):
                    stack.append(head + [alt])
            if count <= 1:
                self.sample({"execution": name, "choices": [c for c, _ in ch.path]})
            if limit is not None and count >= limit and stack:
                self.extra["capped"] = "%s stopped after %d executions" % (name, limit)
                break
        return count

    def result(self):
        return {
            "execs": self.execs,
            "transitions": self.transitions,
            "states": [s.hex() for s in self.states],
            "nontrivial": self.nontrivial,
            "traces": self.traces,
            "samples": self.samples,
            "viols": list(self.viols.values()),
            "extra": self.extra,
        }


class Task:
    def __init__(self, kind, what, args=(), lib="eng", preload=(), env=None, timeout=240, name=None, cwd=None):
        self.kind, self.what, self.args, self.lib = kind, what, list(args), lib
        self.preload, self.env, self.timeout, self.cwd = list(preload), dict(env or {}), timeout, cwd
        self.name = name or ("%s(%s)" % (what if isinstance(what, str) else os.path.basename(what[0]), ",".join(map(str, args))))


def Py(fn, *args, **kw):
    return Task("py", fn, args, **kw)


def Exe(argv, **kw):
    return Task("exe", argv, **kw)


def task_env(t):
    env = {
        "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "LC_ALL": "C.UTF-8",
        "HOME": "/root",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0",
        "PYTHONPATH": ":".join([f"{B}/{t.lib}/py", f"{REPO}/libpyclingo", LIB, VERIF]),
        "LUA_CPATH": f"{B}/{t.lib}/lua/?.so;{B}/lib/?.so",
        "LUA_PATH": f"{VERIF}/checks/?.lua",
        "VP_REPO": REPO,
    }
    if t.lib == "eng":
        env["LD_LIBRARY_PATH"] = f"{B}/eng"
    if t.preload:
        env["LD_PRELOAD"] = ":".join(t.preload)
    env.update(t.env)
    return env


JSIZE = 1 << 14


def _start(pid, t, tier, tmp, i):
    jp = os.path.join(tmp, "j%d" % i)
    with open(jp, "wb") as f:
        f.write(b"\0" * JSIZE)
    out = open(os.path.join(tmp, "o%d" % i), "w+b")
    err = open(os.path.join(tmp, "e%d" % i), "w+b")
    env = task_env(t)
    env["VP_JOURNAL"] = jp
    env["VP_TIER"] = tier
    if t.kind == "py":
        argv = [sys.executable, "-X", "faulthandler", os.path.join(LIB, "vplib.py"), "--worker", pid, t.what, json.dumps(t.args)]
    else:
        argv = t.what
    cwd = t.cwd or tmp
    p = subprocess.Popen(argv, stdout=out, stderr=err, env=env, cwd=cwd, stdin=subprocess.DEVNULL, start_new_session=True)
    return {"p": p, "t": t, "j": jp, "out": out, "err": err, "start": time.time(), "last": time.time(), "jval": b""}


def _journal(w):
    try:
        d = open(w["j"], "rb").read(JSIZE)
        return d.split(b"\0", 1)[0]
    except OSError:
        return b""


def run_tasks(pid, tasks, tier, hang=90):
    tmp = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    res = []
    pend = list(enumerate(tasks))
    act = []
    t0 = time.time()
    bad = False
    # after a violation, further ones are searched for a limited time only
    patience = float(os.environ.get("VP_PATIENCE", "400" if tier == "quick" else "3600"))
    try:
        while pend or act:
            if bad and time.time() - t0 > patience:
                break
            while pend and len(act) < NPROC:
                i, t = pend.pop(0)
                act.append(_start(pid, t, tier, tmp, i))
            time.sleep(0.01)
            for w in list(act):
                rc = w["p"].poll()
                now = time.time()
                if rc is None:
                    if now - w["last"] > 1:
                        j = _journal(w)
                        if j != w["jval"]:
                            w["jval"], w["last2"] = j, now
                        w["last"] = now
                    if now - w.get("last2", w["start"]) > hang or now - w["start"] > w["t"].timeout * (10 if tier == "thorough" else 1):
                        w["hang"] = True
                        try:
                            os.killpg(w["p"].pid, 9)
                        except OSError:
                            pass
                        w["p"].wait()
                        rc = -9
                    else:
                        continue
                act.remove(w)
                w["out"].seek(0)
                w["err"].seek(0)
                o = w["out"].read().decode("utf-8", "replace")
                e = w["err"].read().decode("utf-8", "replace")
                w["out"].close()
                w["err"].close()
                w["t"].wall = now - w["start"]
                bad = bad or rc != 0 or '"viols": [{' in o or "\nVIOL " in o
                res.append((w["t"], rc, o, e, _journal(w).decode("utf-8", "replace"), w.get("hang", False)))
                os.unlink(w["j"])
    finally:
        for w in act:
            try:
                os.killpg(w["p"].pid, 9)
            except OSError:
                pass
        subprocess.run(["rm", "-rf", tmp])
    return res


# ---------------------------------------------------------------- check main
def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main(pid, argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("tier", nargs="?", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only")
    a = ap.parse_args(argv)
    t0 = time.time()
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("checks." + pid)
    import build

    build.build(*mod.BUILD)
    tb = time.time() - t0
    tasks = mod.tasks(a.tier)
    if a.only:
        tasks = [t for t in tasks if a.only in t.name]
    if a.replay:
        r = json.load(open(a.replay))
        tasks = [t for t in tasks if t.name == r["task"]]
        print("replaying", r["task"], r["replay"])
    results = run_tasks(pid, tasks, a.tier)
    viols = {}
    tot = {"execs": 0, "transitions": 0, "nontrivial": 0, "traces": 0}
    states = set()
    samples = []
    extra = {}
    per = {}

    def add(t, v):
        if v["key"] not in viols:
            viols[v["key"]] = dict(v, task=t.name)

    broken = []
    for t, rc, o, e, j, hang in results:
        got = None
        if t.kind == "py":
            for line in o.splitlines():
                if line.startswith("RESULT "):
                    got = json.loads(line[7:])
        else:
            got = {"viols": [], "samples": [], "states": [], "extra": {}}
            done = False
            for line in o.splitlines():
                if line.startswith("VIOL "):
                    key, _, desc = line[5:].partition("|")
                    got["viols"].append({"key": key.strip(), "desc": desc.strip(), "replay": desc.strip()})
                elif line.startswith("COV "):
                    for kv in line[4:].split():
                        k, _, v = kv.partition("=")
                        got[k] = got.get(k, 0) + int(v)
                elif line.startswith("STATE "):
                    got["states"].append(line[6:])
                elif line.startswith("SAMPLE "):
                    got["samples"].append(line[7:])
                elif line.strip() == "DONE":
                    done = True
            if not done:
                for v in got["viols"]:
                    add(t, v)
                got = None
        if got is None:
            why = "hang or time limit" if hang else "exit status %s" % rc
            last = j.partition("\n")[2]
            if "WORKER-SETUP-FAILED" in e:
                broken.append((t.name, e[-2000:]))
                continue
            add(t, {"key": "%s: crashed or hung" % t.name, "desc": "%s in execution [%s]: %s" % (why, last, e[-1200:]), "replay": last})
            continue
        for v in got["viols"]:
            add(t, v)
        n = got.get("states", [])
        states.update((t.name if t.kind == "exe" else "") + s for s in n)
        for k in tot:
            tot[k] += int(got.get(k, 0))
        per[t.name] = {"executions": int(got.get("execs", 0)), "states": len(n) or int(got.get("nstates", 0)), "wall_s": round(t.wall, 1)}
        if got.get("nstates"):
            tot["nstates"] = tot.get("nstates", 0) + int(got["nstates"])
        for s in got.get("samples", []):
            if len(samples) < 12:
                samples.append(s)
        extra.update(got.get("extra", {}))
    kn = [k for k in known() if k.get("property") == pid and k.get("status") == "known"]
    code = 0
    nviol = 0
    seen_known = set()
    rdir = os.path.join(VERIF, "evidence", "replay")
    for v in viols.values():
        m = [k for k in kn if k["key"] == v["key"]]
        if m:
            seen_known.add(v["key"])
            continue
        nviol += 1
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%d.json" % (pid, nviol))
        with open(rp, "w") as f:
            json.dump(dict(v, property=pid, rerun="python3 /verif/lib/vplib.py %s %s --replay %s" % (pid, a.tier, rp)), f, indent=1)
        if nviol <= 10:
            print("  %s: %s" % (v["key"], v["desc"][:700].replace("\n", " | ")))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        code = 1
    for k in kn:
        if k["key"] in seen_known or not a.only:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if broken and code == 0:
        for n, e in broken:
            print("task %s could not be set up: %s" % (n, e))
        code = 2
    nstates = len(states) + tot.pop("nstates", 0)
    if not samples:
        samples = [t.name for t in tasks][:3]
    cov = {"samples": samples, "per_task": per}
    if mod.LEVEL == "model_checking":
        cov.update(states=nstates, transitions=tot["transitions"], traces_validated_against_impl=tot["traces"] or tot["execs"])
        cov["executions"] = tot["execs"]
    else:
        cov.update(evaluations=tot["execs"], distinct_nontrivial=tot["nontrivial"] or nstates, rule=mod.RULE)
        cov["choice_points"] = tot["transitions"]
        cov["distinct_states"] = nstates
    cov["exhaustive"] = "capped" not in extra
    if extra:
        cov["notes"] = extra
    ev = {
        "property": pid,
        "tier": a.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": mod.LEVEL,
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        "%s %s: %d executions, %d choice points, %d states, %d violations, build %.1fs, total %.1fs"
        % (pid, a.tier, tot["execs"], tot["transitions"], nstates, nviol, tb, time.time() - t0)
    )
    return code


def worker(pid, fn, args):
    jf = None
    jp = os.environ.get("VP_JOURNAL")
    if jp:
        f = open(jp, "r+b")
        jf = mmap.mmap(f.fileno(), JSIZE)
    try:
        mod = importlib.import_module("checks." + pid)
        f = getattr(mod, fn)
    except Exception:
        # if the package under test cannot even be imported the property fails; anything else is ours
        tb = traceback.format_exc()
        if "/libpyclingo/" in tb or "_clingo" in tb:
            print("RESULT " + json.dumps({"viols": [{"key": "package does not import", "desc": tb[-1500:], "replay": ""}]}))
            return 0
        sys.stderr.write("WORKER-SETUP-FAILED " + tb)
        return 3
    ctx = Ctx(jf, os.environ.get("VP_TIER", "quick"))
    ctx.task = fn
    try:
        f(ctx, *args)
    except Exception as e:
        ctx.fail("%s: unexpected %s" % (fn, type(e).__name__), "%s [%s]\n%s" % (e, ctx.cur, traceback.format_exc()[-1500:]))
    sys.stdout.flush()
    os.write(1, ("\nRESULT " + json.dumps(ctx.result()) + "\n").encode())
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--worker":
        sys.modules["vplib"] = sys.modules["__main__"]
        rc = worker(sys.argv[2], sys.argv[3], json.loads(sys.argv[4]))
        sys.stdout.flush()
        os._exit(rc)
    sys.modules["vplib"] = sys.modules["__main__"]
    sys.exit(main(sys.argv[1], sys.argv[2:]))
