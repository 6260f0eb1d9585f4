"""Builds everything the checks need from /repo's current working tree with ninja.

Build output goes to /verif/.build (ignored by git).  Everything is rebuilt from
/repo's sources; ninja's dependency files make repeated runs incremental.
"""
import glob
import hashlib
import json
import os
import subprocess
import sys

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(VERIF, ".build")
ENG = os.path.join(VERIF, "engine")

MISSING = (
    "control_load_aspif control_register_backend control_remove_minimize "
    "control_update_project model_is_consequence model_priority "
    "propagate_init_get_undo_mode propagate_init_set_undo_mode solve_handle_last"
).split()

PYINC = "/usr/include/python3.12"
LUAINC = "/usr/include/lua5.4"


def _o(path):
    return "obj/" + path.replace(REPO + "/", "").replace(VERIF + "/", "").strip("/").replace("/", "_") + ".o"


def write_ninja():
    os.makedirs(B, exist_ok=True)
    L = []
    w = L.append
    cc = "ccache " if os.environ.get("VP_CCACHE") else ""
    w("ninja_required_version = 1.5")
    w("rule cxx\n command = %sg++ $flags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc" % cc)
    w("rule cc\n command = %sgcc $flags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc" % cc)
    w("rule link\n command = g++ $flags -o $out $in $libs")
    w("rule bison\n command = bison -d -Wno-other -o $cc $in 2>/dev/null")
    w("rule re2c\n command = re2c -W -Wno-everything $flags -o $out $in 2>/dev/null || re2c $flags -o $out $in")
    w("rule text\n command = printf '%s\\n' \"$text\" > $out")
    # ---- generated grammar / lexers
    gin = REPO + "/libgringo/src/input/"
    gens = []
    for g in ("groundtermgrammar", "nongroundgrammar"):
        w(f"build gen/input/{g}/grammar.cc gen/input/{g}/grammar.hh: bison {gin}{g}.yy\n cc = gen/input/{g}/grammar.cc")
        gens.append(f"gen/input/{g}/grammar.hh")
    w(f"build gen/input/groundtermlexer.hh: re2c {gin}groundtermlexer.xh\n flags =")
    w(f"build gen/input/nongroundlexer.hh: re2c {gin}nongroundlexer.xch\n flags = -c")
    w("build gen/input/clingopath.hh: text\n text = static std::vector<std::string> const g_paths = {};")
    gens += ["gen/input/groundtermlexer.hh", "gen/input/nongroundlexer.hh", "gen/input/clingopath.hh"]
    eflags = (
        "-std=gnu++17 -O1 -g0 -w -fPIC -DCLINGO_MAP_TYPE=0 "
        f"-I{ENG}/shim -Igen -I{REPO}/libgringo -I{REPO}/libgringo/src -I{REPO}/libclingo -I{REPO}/libreify"
    )
    srcs = sorted(glob.glob(REPO + "/libgringo/src/*.cc") + glob.glob(REPO + "/libgringo/src/*/*.cc"))
    srcs += sorted(glob.glob(REPO + "/libclingo/src/*.cc"))
    srcs += sorted(glob.glob(REPO + "/libreify/src/*.cc"))
    srcs += sorted(glob.glob(ENG + "/src/*.cc"))
    objs = []
    for s in srcs:
        w(f"build {_o(s)}: cxx {s} || {' '.join(gens)}\n flags = {eflags}")
        objs.append(_o(s))
    for g in ("groundtermgrammar", "nongroundgrammar"):
        s = f"gen/input/{g}/grammar.cc"
        w(f"build obj/{g}.o: cxx {s} || {' '.join(gens)}\n flags = {eflags}")
        objs.append(f"obj/{g}.o")
    w("build eng/libclingo.so.4: link " + " ".join(objs) + "\n flags = -shared -Wl,-soname,libclingo.so.4 -Wl,--no-undefined\n libs = -lpthread")
    w("build engine: phony eng/libclingo.so.4")

    # ---- link modes
    defs = " ".join(f"-Wl,--defsym=clingo_{f}=0" for f in MISSING)
    MODE = {
        "sys": (defs, "-lclingo", ""),
        "eng": ("'-Wl,-rpath,$$ORIGIN/..'", "eng/libclingo.so.4", "eng/libclingo.so.4"),
    }
    # version header
    w("build gen/version.h: text\n text = " + _version_h())
    # ---- python
    pf = f"-O1 -w -fPIC -D_CFFI_NO_LIMITED_API -I{PYINC} -I{REPO}/libclingo"
    s = REPO + "/app/pyclingo/_clingo.c"
    w(f"build {_o(s)}: cc {s}\n flags = {pf}")
    ext = _o(s)
    # ---- embedded python (libpyclingo) and lua
    pl = []
    for n in ("_clingo.c", "pyclingo.c"):
        s = f"{REPO}/libpyclingo/{n}"
        w(f"build {_o(s)}: cc {s} || gen/version.h\n flags = -O1 -w -fPIC -DPYCLINGO_BUILD_LIBRARY -DCLINGO_WITH_PYTHON -I{PYINC} -I{REPO}/libclingo -I{REPO}/libpyclingo -Igen")
        pl.append(_o(s))
    s = f"{REPO}/libluaclingo/luaclingo.cc"
    w(f"build {_o(s)}: cxx {s}\n flags = -std=c++14 -O1 -w -fPIC -DCLINGO_WITH_LUA -DLUACLINGO_BUILD_LIBRARY -DLUACLINGO_NO_VISIBILITY -I{LUAINC} -I{REPO}/libclingo -I{REPO}/libluaclingo")
    ll = [_o(s)]
    s = f"{REPO}/app/luaclingo/main.cc"
    w(f"build {_o(s)}: cxx {s}\n flags = -std=c++14 -O1 -w -fPIC -DCLINGO_WITH_LUA -DLUACLINGO_NO_VISIBILITY -I{LUAINC} -I{REPO}/libclingo -I{REPO}/libluaclingo")
    lm = [_o(s)]
    s = f"{REPO}/app/clingo/main.cc"
    w(f"build {_o(s)}: cxx {s}\n flags = -std=gnu++14 -O1 -w -fPIC -DCLINGO_WITH_LUA -DCLINGO_WITH_PYTHON -DLUACLINGO_NO_VISIBILITY -I{REPO}/libpyclingo -I{REPO}/libluaclingo -I{REPO}/libclingo")
    am = [_o(s)]
    s = f"{REPO}/app/gringo/main.cc"
    w(f"build {_o(s)}: cxx {s}\n flags = -std=gnu++17 -O1 -w -fPIC -I{REPO}/libclingo")
    gm = [_o(s)]
    s = f"{REPO}/app/reify/main.cc"
    w(f"build {_o(s)}: cxx {s}\n flags = {eflags}")
    rm = [_o(s)]
    w(f"rule pygen\n command = {sys.executable} $script $in $out")
    w(f"build gen/_vpthy.c: pygen {VERIF}/checks/vpthy.inc | {VERIF}/lib/gen_thy.py\n script = {VERIF}/lib/gen_thy.py")
    w(f"build obj/_vpthy.o: cc gen/_vpthy.c\n flags = {pf}")
    for m, (lf, lib, dep) in MODE.items():
        d = f" | {dep}" if dep else ""
        w(f"build {m}/py/_vpthy.so: link obj/_vpthy.o{d}\n flags = -shared {lf}\n libs = {lib}")
        w(f"build {m}/py/_clingo.so: link {ext}{d}\n flags = -shared {lf}\n libs = {lib}")
        w(f"build {m}/lua/clingo.so: link {' '.join(lm + ll)}{d}\n flags = -shared {lf}\n libs = {lib} -llua5.4 -lm")
        w(f"build {m}/bin/clingo: link {' '.join(am + pl + ll)}{d}\n flags = {lf}\n libs = {lib} -lpython3.12 -llua5.4 -lm -lpthread")
    w(f"build eng/bin/gringo: link {' '.join(gm)} | eng/libclingo.so.4\n flags = {MODE['eng'][0]}\n libs = eng/libclingo.so.4")
    w(f"build eng/bin/reify: link {' '.join(rm)} | eng/libclingo.so.4\n flags = {MODE['eng'][0]}\n libs = eng/libclingo.so.4")
    # ---- interposer on the C API
    w(f"build gen/vpi.c: pygen {REPO}/libclingo/clingo.h | {VERIF}/lib/gen_interposer.py\n script = {VERIF}/lib/gen_interposer.py")
    w(f"build obj/vpi.o: cc gen/vpi.c\n flags = -O1 -w -fPIC -I{REPO}/libclingo -I{LUAINC}")
    w("build lib/vpi.so: link obj/vpi.o\n flags = -shared\n libs = -ldl -lpthread")
    # ---- C++ tests (development aid only)
    ts = sorted(glob.glob(REPO + "/libclingo/tests/*.cc"))
    to = []
    for s in ts:
        w(f"build {_o(s)}: cxx {s}\n flags = -std=c++14 -O0 -w -I{REPO}/libclingo -I{REPO}/libclingo/tests")
        to.append(_o(s))
    w(f"build eng/bin/test_clingo: link {' '.join(to)} | eng/libclingo.so.4\n flags = {MODE['eng'][0]}\n libs = eng/libclingo.so.4 -lCatch2Main -lCatch2 -lpthread")
    # ---- harness drivers: checks/<name>.cc -> (sys|eng)/drv/<name>; checks/<name>.e.cc uses gringo internals
    for s in sorted(glob.glob(VERIF + "/checks/*.cc")):
        n = os.path.basename(s)
        if n.endswith(".e.cc"):
            n = n[:-5]
            w(f"build {_o(s)}: cxx {s} || {' '.join(gens)}\n flags = {eflags}")
            w(f"build eng/drv/{n}: link {_o(s)} | eng/libclingo.so.4\n flags = {MODE['eng'][0]}\n libs = eng/libclingo.so.4 -lpthread")
        elif n.endswith(".so.cc"):
            n = n[:-6]
            w(f"build {_o(s)}: cxx {s}\n flags = -std=c++17 -O1 -w -fPIC -I{REPO}/libclingo")
            w(f"build lib/{n}.so: link {_o(s)}\n flags = -shared\n libs = -ldl -lpthread")
        else:
            n = n[:-3]
            w(f"build {_o(s)}: cxx {s}\n flags = -std=c++14 -O0 -g1 -w -I{REPO}/libclingo")
            for m, (lf, lib, dep) in MODE.items():
                d = f" | {dep}" if dep else ""
                w(f"build {m}/drv/{n}: link {_o(s)}{d}\n flags = {lf}\n libs = {lib} -ldl -lpthread")
    outs = [x.split(":")[0][6:].split()[0] for x in L if x.startswith("build ")]
    outs = [o for o in outs if o.split("/")[0] in ("sys", "eng", "lib") and not o.endswith("test_clingo")]
    w("build setup: phony " + " ".join(outs))
    txt = "\n".join(L) + "\n"
    p = os.path.join(B, "build.ninja")
    if not os.path.exists(p) or open(p).read() != txt:
        with open(p, "w") as f:
            f.write(txt)


def _version_h():
    line = [l for l in open(REPO + "/libpyclingo/version.h.in").read().splitlines() if l.startswith("#")]
    assert len(line) == 1
    t = line[0].replace("@Python_VERSION@", "3.12.3")
    return t.replace("\\", "\\\\").replace('"', '\\"').replace("$", "$$")


def _hashes():
    h = {}
    for d in ("libgringo", "libclingo", "libreify", "libpyclingo", "libluaclingo", "app"):
        for p, _, fs in os.walk(os.path.join(REPO, d)):
            if "/tests" in p:
                continue
            for f in fs:
                n = os.path.join(p, f)
                try:
                    h[n] = hashlib.sha1(open(n, "rb").read()).hexdigest()
                except OSError:
                    pass
    return h


def drop_stale():
    """Removes outputs whose sources changed in content, whatever their time stamps say."""
    hp = os.path.join(B, "hashes.json")
    new = _hashes()
    old = json.load(open(hp)) if os.path.exists(hp) else {}
    if old == new:
        return
    changed = {f for f in new if old.get(f) != new[f]} | {f for f in old if f not in new}
    if old:
        r = subprocess.run(["ninja", "-C", B, "-t", "deps"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        cur = None
        for line in r.stdout.splitlines():
            if line and line[0] != " ":
                cur = line.split(":")[0]
            elif line.strip() in changed and cur:
                p = os.path.join(B, cur)
                if os.path.exists(p):
                    os.unlink(p)
        for g in glob.glob(B + "/gen/**", recursive=True):
            if os.path.isfile(g) and any(f.endswith((".yy", ".xh", ".xch", "clingo.h", ".h.in")) for f in changed):
                os.unlink(g)
    with open(hp, "w") as f:
        json.dump(new, f)


def build(*targets, quiet=True):
    write_ninja()
    drop_stale()
    r = subprocess.run(["ninja", "-C", B, "-j8", *targets], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        raise SystemExit("build of %s failed" % (targets,))
    if not quiet:
        print(r.stdout[-500:])


if __name__ == "__main__":
    build(*sys.argv[1:], quiet=False)
