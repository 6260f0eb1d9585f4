"""Generates the C source of the Python module _vpthy (a recording theory) with cffi."""
import sys

import cffi

src, out = sys.argv[1], sys.argv[2]
f = cffi.FFI()
f.cdef("""
typedef struct clingo_control clingo_control_t;
typedef struct clingo_options clingo_options_t;
typedef struct clingo_model clingo_model_t;
typedef struct clingo_statistic clingo_statistics_t;
typedef struct clingo_ast clingo_ast_t;
typedef uint64_t clingo_symbol_t;
typedef struct vpt_theory vpt_theory_t;
typedef int vpt_value_type_t;
typedef struct vpt_value {
    vpt_value_type_t type;
    union { int int_number; double double_number; clingo_symbol_t symbol; };
} vpt_value_t;
typedef bool (*vpt_ast_callback_t)(clingo_ast_t *ast, void *data);
bool vpt_create(vpt_theory_t **theory);
bool vpt_destroy(vpt_theory_t *theory);
void vpt_version(int *major, int *minor, int *patch);
bool vpt_register(vpt_theory_t *theory, clingo_control_t* control);
bool vpt_rewrite_ast(vpt_theory_t *theory, clingo_ast_t *ast, vpt_ast_callback_t add, void *data);
bool vpt_prepare(vpt_theory_t *theory, clingo_control_t* control);
bool vpt_register_options(vpt_theory_t *theory, clingo_options_t* options);
bool vpt_validate_options(vpt_theory_t *theory);
bool vpt_on_model(vpt_theory_t *theory, clingo_model_t* model);
bool vpt_on_statistics(vpt_theory_t *theory, clingo_statistics_t* step, clingo_statistics_t* accu);
bool vpt_lookup_symbol(vpt_theory_t *theory, clingo_symbol_t symbol, size_t *index);
clingo_symbol_t vpt_get_symbol(vpt_theory_t *theory, size_t index);
void vpt_assignment_begin(vpt_theory_t *theory, uint32_t thread_id, size_t *index);
bool vpt_assignment_next(vpt_theory_t *theory, uint32_t thread_id, size_t *index);
bool vpt_assignment_has_value(vpt_theory_t *theory, uint32_t thread_id, size_t index);
void vpt_assignment_get_value(vpt_theory_t *theory, uint32_t thread_id, size_t index, vpt_value_t *value);
bool vpt_configure(vpt_theory_t *theory, char const *key, char const *value);
extern "Python" bool pyvpt_rewrite(clingo_ast_t *ast, void *data);

char const *vpt_take_log(void);
void vpt_reset(void);
void vpt_plan(int call, int code);
void vpt_set_symbol(vpt_theory_t *t, size_t n, size_t i, clingo_symbol_t s);
void vpt_set_value(vpt_theory_t *t, uint32_t thread, size_t i, int type, int x, double d, clingo_symbol_t s);
void vpt_rewrites(vpt_theory_t *t, int n);
int vpt_alive(void *t);
""")
f.set_source("_vpthy", open(src).read())
f.emit_c_code(out)
