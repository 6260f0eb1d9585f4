"""Generates an LD_PRELOAD library from clingo.h that counts, logs and fails calls of the C API."""
import os
import re
import subprocess
import sys
import tempfile

from pycparser import c_ast, c_generator, c_parser

hdr, out = sys.argv[1], sys.argv[2]
d = tempfile.mkdtemp()
for n in ("stddef.h", "stdint.h", "stdlib.h", "stdbool.h"):
    open(os.path.join(d, n), "w").write("")
txt = subprocess.run(
    ["gcc", "-E", "-P", "-nostdinc", "-I", d, "-DCLINGO_NO_VISIBILITY", "-DCLINGO_VISIBILITY_DEFAULT=", hdr],
    stdout=subprocess.PIPE, check=True, text=True,
).stdout
subprocess.run(["rm", "-rf", d])
pre = "typedef int bool; typedef unsigned size_t; " + " ".join(
    "typedef int %s;" % t for t in "int8_t uint8_t int16_t uint16_t int32_t uint32_t int64_t uint64_t uintptr_t intptr_t".split()
)
ast = c_parser.CParser().parse(pre + "\n" + txt)
gen = c_generator.CGenerator()

# functions handing out / taking back counted resources: kind, +-1 (decided on success)
AST_GET = {
    "clingo_ast_build": "arg1", "clingo_ast_copy": "last", "clingo_ast_deep_copy": "last",
    "clingo_ast_attribute_get_ast": "last", "clingo_ast_attribute_get_optional_ast": "last",
    "clingo_ast_attribute_get_ast_at": "last", "clingo_ast_acquire": "arg0",
}
o = []
w = o.append
w("#define _GNU_SOURCE\n#include <clingo.h>\n#include <dlfcn.h>\n#include <link.h>\n#include <pthread.h>\n#include <stdarg.h>\n#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>")
w(r'''
#define EXP __attribute__((visibility("default")))
static long g_calls, g_arm, g_code, g_hits, g_skip_name;
static char g_msg[256], g_has_msg, g_failed[128], g_name[128];
static long g_bal[8];
static long g_bad;
static char g_badtxt[256];
static int g_log_on, g_on = 1;
static char *g_log; static size_t g_len, g_cap;
static uintptr_t g_lo, g_hi;
static pthread_mutex_t g_mut = PTHREAD_MUTEX_INITIALIZER;
static struct { void *p; int kind; long n; } g_live[4096];
static int cb(struct dl_phdr_info *i, size_t s, void *d) {
    if (i->dlpi_name && strstr(i->dlpi_name, "libclingo.so")) {
        for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
            g_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; g_hi = g_lo + i->dlpi_phdr[k].p_memsz;
        }
    }
    return 0;
}
static int inlib(void *ra) {
    if (!g_hi) dl_iterate_phdr(cb, 0);
    return (uintptr_t)ra >= g_lo && (uintptr_t)ra < g_hi;
}
static void *sym(char const *n) {
    void *p = dlsym(RTLD_NEXT, n);
    if (!p) { void *h = dlopen("libclingo.so.4", RTLD_NOW | RTLD_NOLOAD); if (h) p = dlsym(h, n); }
    if (!p) { fprintf(stderr, "interposer: no %s\n", n); abort(); }
    return p;
}
static void bad(char const *fmt, void *p) { if (!g_bad++) snprintf(g_badtxt, sizeof g_badtxt, fmt, p); }
static void track(int kind, void *p, int delta) {
    pthread_mutex_lock(&g_mut);
    g_bal[kind] += delta;
    int fr = -1, i;
    for (i = 0; i < 4096; ++i) {
        if (g_live[i].n && g_live[i].p == p && g_live[i].kind == kind) break;
        if (fr < 0 && !g_live[i].n) fr = i;
    }
    if (i == 4096) {
        if (delta < 0) bad("release of something not held: %p", p);
        else if (fr >= 0) { g_live[fr].p = p; g_live[fr].kind = kind; g_live[fr].n = delta; }
    } else g_live[i].n += delta;
    pthread_mutex_unlock(&g_mut);
}
EXP void vpi_reset(void) { g_calls = g_arm = g_hits = 0; g_failed[0] = 0; g_name[0] = 0; g_len = 0; if (g_log) g_log[0] = 0; }
EXP void vpi_reset_balance(void) { memset(g_bal, 0, sizeof g_bal); memset(g_live, 0, sizeof g_live); g_bad = 0; g_badtxt[0] = 0; }
// fail the k-th failable call (of the named function if name is given)
EXP void vpi_arm(long k, int code, char const *msg, char const *name) {
    g_calls = 0; g_hits = 0; g_arm = k; g_code = code; g_failed[0] = 0;
    g_has_msg = msg != 0; g_msg[0] = 0; if (msg) strncpy(g_msg, msg, 255);
    g_name[0] = 0; if (name) strncpy(g_name, name, 127);
}
EXP long vpi_calls(void) { return g_calls; }
EXP long vpi_hits(void) { return g_hits; }
EXP char const *vpi_failed(void) { return g_failed; }
EXP long vpi_balance(int kind) { return g_bal[kind]; }
EXP char const *vpi_bad(void) { return g_badtxt; }
EXP void vpi_log_on(int on) { g_log_on = on; }
EXP char const *vpi_log(void) { return g_log ? g_log : ""; }
EXP void vpi_enable(int on) { g_on = on; }
static void lput(char const *s) {
    size_t n = strlen(s);
    if (g_len + n + 1 > g_cap) { g_cap = (g_len + n + 1) * 2; g_log = realloc(g_log, g_cap); }
    memcpy(g_log + g_len, s, n + 1); g_len += n;
}
static void lnum(long long x) { char b[32]; snprintf(b, 32, "%lld", x); lput(b); }
static void lstr(char const *s) { if (!s) { lput("null"); return; } lput("\""); lput(s); lput("\""); }
static char g_skip[128];
EXP void vpi_skip(char const *name) { strncpy(g_skip, name ? name : "", 127); }
static int hit(char const *name) {
    if (g_skip[0] && !strcmp(g_skip, name)) return 0;
    if (g_name[0] && strcmp(g_name, name)) return 0;
    ++g_calls;
    if (g_arm && g_calls == g_arm) {
        ++g_hits; strncpy(g_failed, name, 127);
        clingo_set_error(g_code, g_has_msg ? g_msg : 0);
        return 1;
    }
    return 0;
}
''')
w(r'''
// the function receiving the values of external functions is part of the library as well
struct vpi_sc { clingo_symbol_callback_t cb; void *data; };
struct vpi_gc { clingo_ground_callback_t cb; void *data; };
static bool vpi_symbol(clingo_symbol_t const *s, size_t n, void *d) {
    struct vpi_sc *x = d;
    if (hit("symbol_callback")) return false;
    return x->cb(s, n, x->data);
}
static bool vpi_ground(clingo_location_t const *l, char const *name, clingo_symbol_t const *a, size_t n, void *d, clingo_symbol_callback_t cb, void *cbd) {
    struct vpi_gc *x = d; struct vpi_sc y = {cb, cbd};
    return x->cb(l, name, a, n, x->data, vpi_symbol, &y);
}
''')
NOFAIL = {"clingo_set_error", "clingo_error_code", "clingo_error_message"}
# calls whose boolean result is the answer and not a status
VALUE = set("""signature_is_positive signature_is_negative signature_is_equal_to signature_is_less_than symbol_is_equal_to symbol_is_less_than
assignment_has_conflict assignment_has_literal assignment_is_total propagate_control_has_watch control_is_conflicting
control_get_enable_enumeration_assumption control_get_enable_cleanup ast_less_than ast_equal""".split())
# releasing calls take effect although an error is reported
AFTER = {"clingo_solve_handle_close", "clingo_backend_end", "clingo_program_builder_end"}
names = []
for ext in ast.ext:
    if not isinstance(ext, c_ast.Decl) or not isinstance(ext.type, c_ast.FuncDecl):
        continue
    n = ext.name
    if not n.startswith("clingo_"):
        continue
    fd = ext.type
    params = []
    if fd.args:
        for i, p in enumerate(fd.args.params):
            if isinstance(p, c_ast.Typename) and gen.visit(p) == "void":
                continue
            params.append(p)
    variadic = params and isinstance(params[-1], c_ast.EllipsisParam)
    if variadic:
        params.pop()
    pn = [p.name or "a%d" % i for i, p in enumerate(params)]
    ptypes = [gen.visit(c_ast.Typename(None, [], None, p.type)) if not isinstance(p, c_ast.Typename) else gen.visit(p) for p in params]
    decl = gen.visit(ext)
    ret = gen.visit(c_ast.Typename(None, [], None, fd.type))
    # strip the name that pycparser keeps in the return type declaration
    ret = decl[: re.search(r"\b%s\(" % n, decl).start()].strip()
    names.append(n)
    void = ret == "void"
    w(f"EXP {decl.replace('extern ', '')} {{")
    w(f"    static __typeof__(&{n}) real; if (!real) real = (__typeof__(&{n}))sym(\"{n}\");")
    call = f"real({', '.join(pn)})"
    if n in NOFAIL:
        w(f"    {'' if void else 'return '}{call}; }}")
        continue
    if variadic:
        w(f"    va_list va; va_start(va, {pn[-1]}); uint64_t x[16]; for (int i = 0; i < 16; ++i) x[i] = va_arg(va, uint64_t); va_end(va);")
        call = f"real({', '.join(pn + ['x[%d]' % i for i in range(16)])})"
    w("    int il = !g_on || inlib(__builtin_return_address(0));")
    if ret == "bool" and n not in AFTER and n[7:] not in VALUE:
        w(f"    if (!il && hit(\"{n}\")) return false;")
    if n == "clingo_control_ground":
        w(f"    struct vpi_gc gc = {{{pn[3]}, {pn[4]}}}; if (!il && {pn[3]}) {{ {pn[3]} = vpi_ground; {pn[4]} = &gc; }}")
    w(f"    {'' if void else ret + ' r = '}{call};")
    w("    if (il) " + ("return;" if void else "return r;"))
    if n in AFTER:
        pass
    ok = "r" if ret == "bool" else "1"
    if n in AST_GET:
        tgt = {"last": f"*{pn[-1]}", "arg0": pn[0], "arg1": f"*{pn[1] if len(pn) > 1 else pn[0]}"}[AST_GET[n]]
        cond = f"{ok} && {tgt}" if ret == "bool" else "1"
        w(f"    if ({cond}) track(0, {tgt}, 1);")
    elif n == "clingo_ast_release":
        w(f"    track(0, {pn[0]}, -1);")
    elif n == "clingo_control_new":
        w(f"    if (r) track(1, *{pn[-1]}, 1);")
    elif n == "clingo_control_free":
        w(f"    track(1, {pn[0]}, -1);")
    elif n == "clingo_control_solve":
        w(f"    if (r && *{pn[-1]}) track(2, *{pn[-1]}, 1);")
    elif n == "clingo_solve_handle_close":
        w(f"    if ({pn[0]}) track(2, {pn[0]}, -1);")
    elif n == "clingo_backend_begin":
        w(f"    if (r) track(3, {pn[0]}, 1);")
    elif n == "clingo_backend_end":
        w(f"    track(3, {pn[0]}, -1);")
    elif n == "clingo_program_builder_begin":
        w(f"    if (r) track(4, {pn[0]}, 1);")
    elif n == "clingo_program_builder_end":
        w(f"    track(4, {pn[0]}, -1);")
    w("    if (g_log_on) { pthread_mutex_lock(&g_mut);")
    w(f"        lput(\"{n[7:]}(\");")
    for i, (x, t) in enumerate(zip(pn, ptypes)):
        if i:
            w('        lput(",");')
        tt = re.sub(r"\s+", " ", t)
        if tt in ("const char *", "char *"):
            w(f"        lstr({x});")
        elif "*" in tt or "_callback_t" in tt or tt.endswith("_t") and ("callback" in tt or "logger" in tt or "function" in tt):
            w(f"        lput({x} ? \"&\" : \"0\");")
        elif tt in ("clingo_location_t", "clingo_weighted_literal_t") or tt.startswith("struct"):
            w('        lput("?");')
        else:
            w(f"        lnum((long long){x});")
    w('        lput(")");')
    if not void:
        if "*" in ret:
            w('        lput(r ? "=&" : "=0");')
        else:
            w('        lput("="); lnum((long long)r);')
    w('        lput("\\n"); pthread_mutex_unlock(&g_mut); }')
    if n in AFTER and ret == "bool":
        w(f"    if (r && hit(\"{n}\")) return false;")
    w("    return;}" if void else "    return r; }")
w("EXP char const *vpi_names(void) { return \"%s\"; }" % " ".join(names))
open(out, "w").write("\n".join(o) + "\n")
