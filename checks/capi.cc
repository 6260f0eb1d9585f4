// The same commands as the other interpreters, through the C interface alone: what the language bindings are compared with.
#include <clingo.h>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <cstring>
#include <functional>

using S = std::string;
using SV = std::vector<S>;
struct Err { S m; };
static S join(SV const &v, S const &d) { S r; for (size_t i = 0; i < v.size(); ++i) { if (i) r += d; r += v[i]; } return r; }
static SV split(S const &s, char d) { SV r; S c; for (char x : s) { if (x == d) { if (!c.empty()) r.push_back(c); c.clear(); } else c += x; } if (!c.empty()) r.push_back(c); return r; }
static void h(bool ok) {
    if (!ok) {
        char const *m = clingo_error_message();
        auto c = clingo_error_code();
        throw Err{S(c == clingo_error_bad_alloc ? "MemoryError" : "RuntimeError") + ":" + (m ? m : "no message")};
    }
}
static S num(double x) { char b[64]; snprintf(b, sizeof(b), "%g", x); return b; }

extern "C" void vp_set_choice(unsigned (*)(char const *, unsigned)) __attribute__((weak));
static std::vector<int> g_prefix;
static std::map<S, int> g_used;
static std::map<S, int> g_bound{{"thread", 2}, {"async", 3}};
static std::vector<std::pair<int, int>> g_path;
static unsigned choice(char const *tag, unsigned n) { // as in icpp.cc
    auto it = g_bound.find(tag);
    if (g_path.empty()) g_used.clear();
    if (it != g_bound.end() && g_used[tag] >= it->second) return 0;
    int c = g_path.size() < g_prefix.size() ? g_prefix[g_path.size()] : 0;
    g_path.emplace_back(c, static_cast<int>(n));
    if (c) ++g_used[tag];
    return static_cast<unsigned>(c);
}
static S ts(clingo_symbol_t s) { size_t n; h(clingo_symbol_to_string_size(s, &n)); std::vector<char> v(n); h(clingo_symbol_to_string(s, v.data(), n)); return v.data(); }

// A propagator that logs all it sees and acts as told (see ipy.py).
struct Prop {
    SV init, rules;
    S flags;
    std::map<S, int> V;
    std::map<size_t, int> fired;
    SV *log;
    int n;
    using A = clingo_assignment_t const *;
    int lit(S const &x) { if (x[0] == '-') return -lit(x.substr(1)); auto it = V.find(x); if (it == V.end()) throw Err{"no literal " + x}; return it->second; }
    std::vector<int> lits(S const &x) { std::vector<int> r; if (x != ".") for (auto &y : split(x, ',')) r.push_back(lit(y)); return r; }
    void out(S const &x) { log->push_back(std::to_string(n) + x); }
    static S view(A a) {
        uint32_t dl = clingo_assignment_decision_level(a), ts, l, b, e;
        S r = std::to_string(dl) + " " + std::to_string(clingo_assignment_root_level(a)) + " " + (clingo_assignment_has_conflict(a) ? "1" : "0") + (clingo_assignment_is_total(a) ? "1" : "0") + "|";
        size_t sz = clingo_assignment_size(a);
        int x, mx = 0;
        for (size_t i = 0; i < sz; ++i) {
            h(clingo_assignment_at(a, i, &x));
            mx = std::max(mx, std::abs(x));
            r += std::to_string(x) + ":";
            for (int y : {x, -x}) {
                clingo_truth_value_t v; bool t, f, fx;
                h(clingo_assignment_truth_value(a, y, &v));
                h(clingo_assignment_is_true(a, y, &t));
                h(clingo_assignment_is_false(a, y, &f));
                h(clingo_assignment_is_fixed(a, y, &fx));
                r += v == clingo_truth_value_free ? "-" : v == clingo_truth_value_true ? "1" : "0";
                r += S(t ? "1" : "0") + (f ? "1" : "0") + (fx ? "1" : "0") + (clingo_assignment_has_literal(a, y) ? "1" : "0");
                if (v != clingo_truth_value_free) { h(clingo_assignment_level(a, y, &l)); r += std::to_string(l); }
                r += ",";
            }
            r += " ";
        }
        r += clingo_assignment_has_literal(a, mx + 3) ? "!" : "";
        r += "|";
        for (l = 1; l <= dl; ++l) { h(clingo_assignment_decision(a, l, &x)); r += std::to_string(x) + " "; }
        r += "|";
        h(clingo_assignment_trail_size(a, &ts));
        for (uint32_t i = 0; i < ts; ++i) { h(clingo_assignment_trail_at(a, i, &x)); r += std::to_string(x) + " "; }
        r += "|";
        for (l = 0; l <= dl; ++l) { h(clingo_assignment_trail_begin(a, l, &b)); h(clingo_assignment_trail_end(a, l, &e)); r += std::to_string(b) + "-" + std::to_string(e) + " "; }
        return r;
    }
    static bool guard(std::function<void()> f) {
        try { f(); return true; }
        catch (Err const &e) { clingo_set_error(clingo_error_runtime, e.m.c_str()); return false; }
    }
    void init_(clingo_propagate_init_t *I) {
        A a = clingo_propagate_init_assignment(I);
        V.clear();
        S r = "I" + std::to_string(clingo_propagate_init_number_of_threads(I)) + " " + "NTFB"[clingo_propagate_init_get_check_mode(I)] + " ";
        clingo_symbolic_atoms_t const *sa;
        h(clingo_propagate_init_symbolic_atoms(I, &sa));
        clingo_symbolic_atom_iterator_t it, ie;
        h(clingo_symbolic_atoms_begin(sa, nullptr, &it));
        h(clingo_symbolic_atoms_end(sa, &ie));
        V["T"] = 1;
        SV names;
        for (;;) {
            bool q;
            h(clingo_symbolic_atoms_iterator_is_equal_to(sa, it, ie, &q));
            if (q) break;
            clingo_symbol_t y; int pl, sl;
            h(clingo_symbolic_atoms_symbol(sa, it, &y));
            h(clingo_symbolic_atoms_literal(sa, it, &pl));
            h(clingo_propagate_init_solver_literal(I, pl, &sl));
            names.push_back(ts(y) + "=" + std::to_string(sl));
            h(clingo_propagate_init_solver_literal(I, -pl, &pl));
            names.back() += "/" + std::to_string(pl);
            V[ts(y)] = sl;
            h(clingo_symbolic_atoms_next(sa, it, &it));
        }
        std::sort(names.begin(), names.end());
        r += join(names, " ") + "|";
        clingo_theory_atoms_t const *ta;
        h(clingo_propagate_init_theory_atoms(I, &ta));
        size_t nt;
        h(clingo_theory_atoms_size(ta, &nt));
        for (size_t i = 0; i < nt; ++i) {
            int pl, sl; clingo_id_t const *es; size_t ne;
            h(clingo_theory_atoms_atom_literal(ta, i, &pl));
            h(clingo_propagate_init_solver_literal(I, pl, &sl));
            V["&" + std::to_string(i)] = sl;
            r += " " + std::to_string(sl);
            h(clingo_theory_atoms_atom_elements(ta, i, &es, &ne));
            for (size_t j = 0; j < ne; ++j) {
                h(clingo_theory_atoms_element_condition_id(ta, es[j], &pl));
                h(clingo_propagate_init_solver_literal(I, pl, &sl));
                V["&" + std::to_string(i) + "." + std::to_string(j)] = sl;
                r += ":" + std::to_string(sl);
            }
        }
        out(r + "|" + view(a));
        for (auto &act : init) {
            auto w = split(act, ' ');
            S const &k = w[0];
            bool res = true;
            if (k == "watch" && w.size() > 2) h(clingo_propagate_init_add_watch_to_thread(I, lit(w[1]), std::stoul(w[2])));
            else if (k == "watch") h(clingo_propagate_init_add_watch(I, lit(w[1])));
            else if (k == "unwatch" && w.size() > 2) h(clingo_propagate_init_remove_watch_from_thread(I, lit(w[1]), std::stoul(w[2])));
            else if (k == "unwatch") h(clingo_propagate_init_remove_watch(I, lit(w[1])));
            else if (k == "freeze") h(clingo_propagate_init_freeze_literal(I, lit(w[1])));
            else if (k == "lit") h(clingo_propagate_init_add_literal(I, w.size() < 3 || w[2] == "1", &V[w[1]]));
            else if (k == "clause") { auto l = lits(w[1]); h(clingo_propagate_init_add_clause(I, l.data(), l.size(), &res)); }
            else if (k == "wc") {
                std::vector<clingo_weighted_literal_t> wl;
                if (w[2] != ".") for (auto &x : split(w[2], ',')) { auto y = split(x, '='); wl.push_back({lit(y[0]), std::stoi(y[1])}); }
                h(clingo_propagate_init_add_weight_constraint(I, lit(w[1]), wl.data(), wl.size(), std::stoi(w[3]), w.size() > 4 ? std::stoi(w[4]) : 0, w.size() > 5 && w[5] == "1", &res));
            }
            else if (k == "min") h(clingo_propagate_init_add_minimize(I, lit(w[1]), std::stoi(w[2]), w.size() > 3 ? std::stoi(w[3]) : 0));
            else if (k == "prop") h(clingo_propagate_init_propagate(I, &res));
            else if (k == "cmode") { clingo_propagate_init_set_check_mode(I, S("NTFB").find(w[1])); out(S("m") + "NTFB"[clingo_propagate_init_get_check_mode(I)]); }
            else if (k == "umode") { out(S("u") + "DA"[clingo_propagate_init_get_undo_mode(I)]); clingo_propagate_init_set_undo_mode(I, S("DA").find(w[1])); out(S("u") + "DA"[clingo_propagate_init_get_undo_mode(I)]); }
            else throw Err{"action " + k};
            out("i" + act + (k == "lit" ? "=" + std::to_string(V[w[1]]) : "") + (res ? "" : "=0") + "|" + view(a));
            if (!res) break;
        }
    }
    bool cond(A a, SV const &f) { if (f[1] == ".") return true; for (int l : lits(f[1])) { bool t; h(clingo_assignment_is_true(a, l, &t)); if (!t) return false; } return true; }
    void act(char ev, clingo_propagate_control_t *C) {
        A a = clingo_propagate_control_assignment(C);
        for (size_t i = 0; i < rules.size(); ++i) {
            auto f = split(rules[i], ':');
            if (f[0][0] != ev || !cond(a, f)) continue;
            if (f[0].size() > 1 && fired[i] >= std::stoi(f[0].substr(1))) continue;
            ++fired[i];
            auto w = split(f[2], ' ');
            S const &k = w[0];
            bool res = true;
            S x;
            if (k == "clause" || k == "nogood") {
                auto l = lits(w[1]);
                if (k == "nogood") for (auto &y : l) y = -y;
                unsigned t = 0;
                if (w.size() > 2) t = (w[2].find('t') != S::npos ? clingo_clause_type_volatile : 0) | (w[2].find('l') != S::npos ? clingo_clause_type_static : 0);
                h(clingo_propagate_control_add_clause(C, l.data(), l.size(), t, &res));
            }
            else if (k == "lit") { int y; h(clingo_propagate_control_add_literal(C, &y)); V[w[1]] = y; x = "=" + std::to_string(y); }
            else if (k == "watch") h(clingo_propagate_control_add_watch(C, lit(w[1])));
            else if (k == "unwatch") clingo_propagate_control_remove_watch(C, lit(w[1]));
            else if (k == "has") x = clingo_propagate_control_has_watch(C, lit(w[1])) ? "=1" : "=0";
            else if (k == "prop") h(clingo_propagate_control_propagate(C, &res));
            else throw Err{"action " + k};
            out("r" + std::to_string(i) + x + (res ? "" : "=0") + "|" + view(a));
            if (!res) break;
        }
    }
    static S nums(int const *c, size_t n) { S r; for (size_t i = 0; i < n; ++i) r += " " + std::to_string(c[i]); return r; }
    void reg(clingo_control_t *ctl) {
        clingo_propagator_t p{};
        if (flags.find('i') != S::npos) p.init = [](clingo_propagate_init_t *I, void *d) { return guard([&] { static_cast<Prop *>(d)->init_(I); }); };
        if (flags.find('p') != S::npos) p.propagate = [](clingo_propagate_control_t *C, int const *c, size_t n, void *d) {
            return guard([&] { auto *t = static_cast<Prop *>(d); t->out("P" + std::to_string(clingo_propagate_control_thread_id(C)) + nums(c, n) + "|" + view(clingo_propagate_control_assignment(C))); t->act('p', C); }); };
        if (flags.find('u') != S::npos) p.undo = [](clingo_propagate_control_t const *C, int const *c, size_t n, void *d) {
            auto *t = static_cast<Prop *>(d); t->out("U" + std::to_string(clingo_propagate_control_thread_id(C)) + nums(c, n) + "|" + view(clingo_propagate_control_assignment(C))); };
        if (flags.find('c') != S::npos) p.check = [](clingo_propagate_control_t *C, void *d) {
            return guard([&] { auto *t = static_cast<Prop *>(d); t->out("C" + std::to_string(clingo_propagate_control_thread_id(C)) + "|" + view(clingo_propagate_control_assignment(C))); t->act('c', C); }); };
        if (flags.find('d') != S::npos) p.decide = [](clingo_id_t id, clingo_assignment_t const *a, clingo_literal_t fb, void *d, clingo_literal_t *dec) {
            return guard([&] {
                auto *t = static_cast<Prop *>(d);
                int r = fb;
                for (size_t i = 0; i < t->rules.size(); ++i) {
                    auto f = split(t->rules[i], ':');
                    if (f[0][0] != 'd' || !t->cond(a, f)) continue;
                    if (f[0].size() > 1 && t->fired[i] >= std::stoi(f[0].substr(1))) continue;
                    ++t->fired[i];
                    auto w = split(f[2], ' ');
                    if (w[0] == "none") { r = 0; break; }
                    if (w[0] == "fb") break;
                    bool done = false;
                    for (int l : t->lits(w[1])) { clingo_truth_value_t v; h(clingo_assignment_truth_value(a, l, &v)); if (v == clingo_truth_value_free) { r = l; done = true; break; } }
                    if (done) break;
                }
                t->out("D" + std::to_string(id) + " " + std::to_string(fb) + " " + std::to_string(r) + "|" + view(a));
                *dec = r;
            }); };
        h(clingo_control_register_propagator(ctl, &p, this, false));
    }
};

struct I {
    std::vector<std::unique_ptr<Prop>> props;
    SV plog;
    clingo_control_t *ctl = nullptr;
    SV msgs;
    clingo_configuration_t *cf = nullptr;
    ~I() { reset(); }
    void reset() { if (ctl) clingo_control_free(ctl); ctl = nullptr; props.clear(); plog.clear(); }
    clingo_id_t conf(S const &path) {
        h(clingo_control_configuration(ctl, &cf));
        clingo_id_t k, r;
        h(clingo_configuration_root(cf, &k));
        for (auto &p : split(path, '.')) {
            if (isdigit(p[0])) h(clingo_configuration_array_at(cf, k, std::stoul(p), &r));
            else {
                clingo_configuration_type_bitset_t t;
                h(clingo_configuration_type(cf, k, &t));
                bool has = false;
                if (t & clingo_configuration_type_map) h(clingo_configuration_map_has_subkey(cf, k, p.c_str(), &has));
                if (!has) throw Err{"no key"};
                h(clingo_configuration_map_at(cf, k, p.c_str(), &r));
            }
            k = r;
        }
        return k;
    }
    S desc(clingo_id_t k) { char const *d; h(clingo_configuration_description(cf, k, &d)); return d ? d : "null"; }
    S value(clingo_id_t k) {
        bool a = false;
        h(clingo_configuration_value_is_assigned(cf, k, &a));
        if (!a) return "-";
        size_t n;
        h(clingo_configuration_value_get_size(cf, k, &n));
        std::vector<char> v(n);
        h(clingo_configuration_value_get(cf, k, v.data(), n));
        return S("=") + v.data();
    }
    clingo_configuration_type_bitset_t type(clingo_id_t k) { clingo_configuration_type_bitset_t t; h(clingo_configuration_type(cf, k, &t)); return t; }
    void dump(clingo_id_t k, S const &p, bool d, SV &out) {
        auto t = type(k);
        S l = p + " #";
        if (t & clingo_configuration_type_array) { size_t n; h(clingo_configuration_array_size(cf, k, &n)); l += std::to_string(n); } else l += "-";
        if (t & clingo_configuration_type_map) {
            size_t n;
            h(clingo_configuration_map_size(cf, k, &n));
            SV ks;
            for (size_t i = 0; i < n; ++i) { char const *s; h(clingo_configuration_map_subkey_name(cf, k, i, &s)); ks.push_back(s); }
            out.push_back(l + " " + join(ks, " "));
            for (auto &s : ks) {
                clingo_id_t c;
                h(clingo_configuration_map_at(cf, k, s.c_str(), &c));
                S q = p + "." + s;
                if (d) out.push_back(q + " ?" + desc(c));
                if (type(c) & clingo_configuration_type_value) out.push_back(q + " " + value(c));
                else dump(c, q, d, out);
            }
        }
        else out.push_back(l);
        if (t & clingo_configuration_type_array) {
            size_t n;
            h(clingo_configuration_array_size(cf, k, &n));
            for (size_t i = 0; i < n; ++i) { clingo_id_t c; h(clingo_configuration_array_at(cf, k, i, &c)); dump(c, p + "." + std::to_string(i), d, out); }
        }
    }
    S run(SV const &c) {
        S const &o = c[0];
        auto n = c.size();
        if (o == "reset") { reset(); return "ok"; }
        if (o == "choices") { g_prefix.clear(); g_path.clear(); for (auto &x : split(n > 1 ? c[1] : "", ',')) g_prefix.push_back(std::stoi(x)); if (vp_set_choice) vp_set_choice(choice); return "ok"; }
        if (o == "path") { SV r; for (auto &x : g_path) r.push_back(std::to_string(x.first) + ":" + std::to_string(x.second)); return join(r, " "); }
        if (o == "bound") { g_bound[c[1]] = std::stoi(c[2]); return "ok"; }
        if (o == "prop") {
            auto p = new Prop{split(c[1], ';'), split(c[2], ';'), c[3], {}, {}, &plog, (int)props.size()};
            props.emplace_back(p);
            p->reg(ctl);
            return "ok";
        }
        if (o == "proplog") { S r = join(plog, "\x01"); plog.clear(); return r; }
        if (o == "new") {
            std::vector<char const *> a;
            auto as = split(n > 1 ? c[1] : "", ' ');
            for (auto &x : as) a.push_back(x.c_str());
            auto log = [](clingo_warning_t, char const *m, void *d) { static_cast<SV *>(d)->push_back(m); };
            h(clingo_control_new(a.data(), a.size(), log, &msgs, 20, &ctl));
            return "ok";
        }
        if (o == "add") { h(clingo_control_add(ctl, c[1].c_str(), nullptr, 0, c[3].c_str())); return "ok"; }
        if (o == "ground") { clingo_part_t p{c[1].c_str(), nullptr, 0}; h(clingo_control_ground(ctl, &p, 1, nullptr, nullptr)); return "ok"; }
        if (o == "ext") { clingo_symbol_t y; h(clingo_parse_term(c[1].c_str(), nullptr, nullptr, 20, &y)); clingo_symbolic_atoms_t const *sa; h(clingo_control_symbolic_atoms(ctl, &sa)); clingo_symbolic_atom_iterator_t it; h(clingo_symbolic_atoms_find(sa, y, &it)); int l; h(clingo_symbolic_atoms_literal(sa, it, &l)); h(clingo_control_assign_external(ctl, l, c[2] == "t" ? clingo_truth_value_true : c[2] == "f" ? clingo_truth_value_false : clingo_truth_value_free)); return "ok"; }
        if (o == "solve") {
            clingo_solve_handle_t *sh;
            int m = 0;
            auto cb = [](clingo_solve_event_type_t t, void *, void *d, bool *go) { *go = true; if (t == clingo_solve_event_type_model) ++*static_cast<int *>(d); return true; };
            std::vector<int> as;
            for (auto &x : split(n > 2 ? c[2] : "", ' ')) {
                clingo_symbol_t y; int l;
                h(clingo_parse_term(x.substr(1).c_str(), nullptr, nullptr, 20, &y));
                clingo_symbolic_atoms_t const *sa;
                clingo_symbolic_atom_iterator_t it;
                h(clingo_control_symbolic_atoms(ctl, &sa));
                h(clingo_symbolic_atoms_find(sa, y, &it));
                h(clingo_symbolic_atoms_literal(sa, it, &l));
                as.push_back(x[0] == '+' ? l : -l);
            }
            h(clingo_control_solve(ctl, 0, as.data(), as.size(), cb, &m, &sh));
            clingo_solve_result_bitset_t r;
            bool ok = clingo_solve_handle_get(sh, &r);
            h(clingo_solve_handle_close(sh));
            h(ok);
            return std::to_string(m);
        }
        if (o == "cdump") { auto k = conf(n > 1 ? c[1] : ""); SV out; dump(k, n > 1 ? c[1] : "", n > 2 && c[2] == "1", out); return join(out, "\x01"); }
        if (o == "cset") { auto k = conf(c[1]); h(clingo_configuration_value_set(cf, k, c[2].c_str())); return "ok"; }
        if (o == "cget") { auto k = conf(c[1]); return type(k) & clingo_configuration_type_value ? value(k) : S("node"); }
        if (o == "cdesc") { auto k = conf(c[1]); return desc(k); }
        if (o == "clen") { auto k = conf(n > 1 ? c[1] : ""); if (!(type(k) & clingo_configuration_type_array)) return "00"; size_t s; h(clingo_configuration_array_size(cf, k, &s)); return std::to_string(s) + "1"; }
        if (o == "ckeys") { auto k = conf(n > 1 ? c[1] : ""); if (!(type(k) & clingo_configuration_type_map)) return "-"; size_t s; h(clingo_configuration_map_size(cf, k, &s)); SV r; for (size_t i = 0; i < s; ++i) { char const *x; h(clingo_configuration_map_subkey_name(cf, k, i, &x)); r.push_back(x); } return join(r, " "); }
        if (o == "stats") {
            clingo_statistics_t const *st;
            h(clingo_control_statistics(ctl, &st));
            uint64_t k;
            h(clingo_statistics_root(st, &k));
            for (auto &p : split(n > 1 ? c[1] : "", '.')) {
                uint64_t r;
                if (isdigit(p[0])) h(clingo_statistics_array_at(st, k, std::stoul(p), &r)); else h(clingo_statistics_map_at(st, k, p.c_str(), &r));
                k = r;
            }
            std::function<S(uint64_t)> tree = [&](uint64_t k) -> S {
                clingo_statistics_type_t t;
                h(clingo_statistics_type(st, k, &t));
                SV r;
                if (t == clingo_statistics_type_value) { double v; h(clingo_statistics_value_get(st, k, &v)); return num(v); }
                if (t == clingo_statistics_type_array) { size_t s; h(clingo_statistics_array_size(st, k, &s)); for (size_t i = 0; i < s; ++i) { uint64_t x; h(clingo_statistics_array_at(st, k, i, &x)); r.push_back(tree(x)); } return "[" + join(r, ",") + "]"; }
                if (t == clingo_statistics_type_map) {
                    size_t s;
                    h(clingo_statistics_map_size(st, k, &s));
                    for (size_t i = 0; i < s; ++i) { char const *nm; h(clingo_statistics_map_subkey_name(st, k, i, &nm)); uint64_t x; h(clingo_statistics_map_at(st, k, nm, &x)); r.push_back(S(nm) + ":" + tree(x)); }
                    std::sort(r.begin(), r.end());
                    return "{" + join(r, ",") + "}";
                }
                return "empty";
            };
            return tree(k);
        }
        throw Err{"unknown " + o};
    }
};

int main() {
    I i;
    S line;
    while (std::getline(std::cin, line)) {
        SV c; S cur;
        for (char x : line) { if (x == '\t') { c.push_back(cur); cur.clear(); } else cur += x == '\x02' ? '\n' : x; }
        c.push_back(cur);
        S r;
        try { r = i.run(c); }
        catch (Err const &e) { r = "E:" + e.m; }
        catch (std::exception const &e) { r = S("E:RuntimeError:") + e.what(); }
        for (auto &x : r) if (x == '\n') x = '\x02';
        std::cout << r << "\n" << std::flush;
    }
}
