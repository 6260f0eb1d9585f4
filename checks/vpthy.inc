// A theory with the interface expected by clingo.theory.Theory that records its calls.
#include <clingo.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
enum { VPT_N = 8, VPT_T = 3 };
typedef int vpt_value_type_t;
typedef struct vpt_value {
    vpt_value_type_t type;
    union {
        int int_number;
        double double_number;
        clingo_symbol_t symbol;
    };
} vpt_value_t;
typedef bool (*vpt_ast_callback_t)(clingo_ast_t *ast, void *data);
typedef struct vpt_theory {
    int id, base, alive, rewrites, option, flag;
    size_t n;
    clingo_symbol_t sym[VPT_N];
    bool has[VPT_T][VPT_N];
    vpt_value_t val[VPT_T][VPT_N];
} vpt_theory_t;

static char *vpt_log_;
static size_t vpt_len_, vpt_cap_;
static int vpt_ids_, vpt_base_, vpt_calls_, vpt_fail_ = -1, vpt_code_;

static void vpt_put(char const *s) {
    size_t n = strlen(s);
    if (vpt_len_ + n + 1 > vpt_cap_) {
        vpt_cap_ = 2 * vpt_cap_ + n + 1;
        vpt_log_ = (char *)realloc(vpt_log_, vpt_cap_);
    }
    memcpy(vpt_log_ + vpt_len_, s, n + 1);
    vpt_len_ += n;
}
static bool vpt_enter(vpt_theory_t *t, char const *name) {
    char buf[64];
    snprintf(buf, sizeof buf, "|%s %d", name, t ? (t->alive == 12345 ? t->id : -1) : 0);
    vpt_put(buf);
    if (vpt_calls_++ == vpt_fail_) {
        clingo_set_error((clingo_error_t)vpt_code_, "planned fault");
        vpt_put(" fault");
        return false;
    }
    return true;
}
static void vpt_ptr(void const *p) {
    char buf[64];
    snprintf(buf, sizeof buf, " %llu", (unsigned long long)(size_t)p);
    vpt_put(buf);
}
static void vpt_num(long long x) {
    char buf[64];
    snprintf(buf, sizeof buf, " %lld", x);
    vpt_put(buf);
}
static void vpt_str(char const *s) {
    char buf[8];
    vpt_put(" ");
    for (; *s; ++s) {
        snprintf(buf, sizeof buf, "%02x", (unsigned char)*s);
        vpt_put(buf);
    }
}
// used by the check
char const *vpt_take_log(void) {
    static char *out;
    free(out);
    out = vpt_log_ ? strdup(vpt_log_) : strdup("");
    vpt_len_ = 0;
    if (vpt_log_) { *vpt_log_ = 0; }
    return out;
}
void vpt_reset(void) { vpt_take_log(); vpt_base_ = vpt_ids_; vpt_calls_ = 0; vpt_fail_ = -1; }
void vpt_plan(int call, int code) { vpt_calls_ = 0; vpt_fail_ = call; vpt_code_ = code; }
void vpt_set_symbol(vpt_theory_t *t, size_t n, size_t i, clingo_symbol_t s) { t->n = n; t->sym[i] = s; }
void vpt_set_value(vpt_theory_t *t, uint32_t thread, size_t i, int type, int x, double d, clingo_symbol_t s) {
    t->has[thread][i] = type >= 0;
    t->val[thread][i].type = type;
    t->val[thread][i].symbol = 0;
    if (type == 1) { t->val[thread][i].double_number = d; }
    else if (type == 2) { t->val[thread][i].symbol = s; }
    else { t->val[thread][i].int_number = x; }
}
void vpt_rewrites(vpt_theory_t *t, int n) { t->rewrites = n; }
int vpt_alive(void *t) { return ((vpt_theory_t *)t)->alive == 12345; }

// interface of the theory
bool vpt_create(vpt_theory_t **theory) {
    if (!vpt_enter(NULL, "create")) { return false; }
    *theory = (vpt_theory_t *)calloc(1, sizeof(vpt_theory_t));
    (*theory)->id = ++vpt_ids_ - vpt_base_;
    (*theory)->base = vpt_base_;
    (*theory)->alive = 12345;
    (*theory)->rewrites = 1;
    vpt_num((*theory)->id);
    return true;
}
bool vpt_destroy(vpt_theory_t *theory) {
    if (theory->alive == 12345 && theory->base != vpt_base_) { // (of an earlier execution)
        theory->alive = 0;
        return true;
    }
    if (!vpt_enter(theory, "destroy")) { return false; }
    theory->alive = 0; // (never freed to recognize uses after destruction)
    return true;
}
void vpt_version(int *major, int *minor, int *patch) {
    vpt_put("|version");
    *major = 3;
    *minor = 14;
    *patch = 159;
}
bool vpt_configure(vpt_theory_t *theory, char const *key, char const *value) {
    if (!vpt_enter(theory, "configure")) { return false; }
    vpt_str(key);
    vpt_str(value);
    return true;
}
bool vpt_register(vpt_theory_t *theory, clingo_control_t *control) {
    if (!vpt_enter(theory, "register")) { return false; }
    vpt_ptr(control);
    char buf[64];
    snprintf(buf, sizeof buf, "reg(%d).", theory->id);
    return clingo_control_add(control, "base", NULL, 0, buf);
}
bool vpt_prepare(vpt_theory_t *theory, clingo_control_t *control) {
    if (!vpt_enter(theory, "prepare")) { return false; }
    vpt_ptr(control);
    clingo_symbolic_atoms_t const *atoms;
    size_t n;
    if (!clingo_control_symbolic_atoms(control, &atoms) || !clingo_symbolic_atoms_size(atoms, &n)) { return false; }
    vpt_num((long long)n);
    return true;
}
bool vpt_rewrite_ast(vpt_theory_t *theory, clingo_ast_t *ast, vpt_ast_callback_t add, void *data) {
    if (!vpt_enter(theory, "rewrite_ast")) { return false; }
    for (int i = 0; i < theory->rewrites; ++i) {
        clingo_ast_t *copy;
        if (i == 0) {
            // the first one is the statement itself
            if (!add(ast, data)) { vpt_put(" stop"); return false; }
            continue;
        }
        if (!clingo_ast_deep_copy(ast, &copy)) { return false; }
        bool ret = add(copy, data);
        clingo_ast_release(copy);
        if (!ret) { vpt_put(" stop"); return false; }
        vpt_put(" next");
    }
    return true;
}
static bool vpt_parse(char const *value, void *data) {
    ((vpt_theory_t *)data)->option = atoi(value);
    return *value >= '0' && *value <= '9';
}
bool vpt_register_options(vpt_theory_t *theory, clingo_options_t *options) {
    if (!vpt_enter(theory, "register_options")) { return false; }
    char name[32];
    snprintf(name, sizeof name, "vpt-opt%d", theory->id);
    if (!clingo_options_add(options, "VPT", name, "an option", vpt_parse, theory, false, "<n>")) { return false; }
    return true;
}
bool vpt_validate_options(vpt_theory_t *theory) {
    if (!vpt_enter(theory, "validate_options")) { return false; }
    vpt_num(theory->option);
    if (theory->option == 7) {
        clingo_set_error(clingo_error_runtime, "seven is not permitted");
        return false;
    }
    return true;
}
bool vpt_on_model(vpt_theory_t *theory, clingo_model_t *model) {
    if (!vpt_enter(theory, "on_model")) { return false; }
    uint64_t number;
    clingo_symbol_t sym, arg;
    if (!clingo_model_number(model, &number)) { return false; }
    vpt_num((long long)number);
    clingo_symbol_create_number((int)number, &arg);
    char name[32];
    snprintf(name, sizeof name, "thy%d", theory->id);
    if (!clingo_symbol_create_function(name, &arg, 1, true, &sym)) { return false; }
    return clingo_model_extend(model, &sym, 1);
}
static bool vpt_stat(clingo_statistics_t *s, vpt_theory_t *t, double v) {
    uint64_t root, key;
    char name[32];
    snprintf(name, sizeof name, "vpt%d", t->id);
    return clingo_statistics_root(s, &root) &&
           clingo_statistics_map_add_subkey(s, root, name, clingo_statistics_type_value, &key) &&
           clingo_statistics_value_set(s, key, v);
}
bool vpt_on_statistics(vpt_theory_t *theory, clingo_statistics_t *step, clingo_statistics_t *accu) {
    if (!vpt_enter(theory, "on_statistics")) { return false; }
    return vpt_stat(step, theory, 1) && vpt_stat(accu, theory, 2);
}
bool vpt_lookup_symbol(vpt_theory_t *theory, clingo_symbol_t symbol, size_t *index) {
    vpt_enter(theory, "lookup");
    for (size_t i = 0; i < theory->n; ++i) {
        if (clingo_symbol_is_equal_to(theory->sym[i], symbol)) {
            *index = i;
            return true;
        }
    }
    *index = 77;
    return false;
}
clingo_symbol_t vpt_get_symbol(vpt_theory_t *theory, size_t index) {
    vpt_enter(theory, "get_symbol");
    return theory->sym[index];
}
void vpt_assignment_begin(vpt_theory_t *theory, uint32_t thread_id, size_t *index) {
    vpt_enter(theory, "begin");
    vpt_num(thread_id);
    *index = (size_t)-1;
}
bool vpt_assignment_next(vpt_theory_t *theory, uint32_t thread_id, size_t *index) {
    vpt_enter(theory, "next");
    vpt_num(thread_id);
    while (++*index < theory->n) {
        if (theory->has[thread_id][*index]) { return true; }
    }
    --*index;
    return false;
}
bool vpt_assignment_has_value(vpt_theory_t *theory, uint32_t thread_id, size_t index) {
    vpt_enter(theory, "has_value");
    return theory->has[thread_id][index];
}
void vpt_assignment_get_value(vpt_theory_t *theory, uint32_t thread_id, size_t index, vpt_value_t *value) {
    vpt_enter(theory, "get_value");
    *value = theory->val[thread_id][index];
}
