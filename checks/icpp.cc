#include <fstream>
// Command interpreter over the C++ API; understands the commands of ipy.py.
#include "vp.hh"
#include <algorithm>
#include <clingo.hh>
#include <cmath>
#include <iostream>
#include <memory>
using namespace Clingo;
extern "C" void vp_set_choice(unsigned (*)(char const *, unsigned)) __attribute__((weak));
using S = std::string;
using SV = std::vector<S>;
using LiteralVector = std::vector<literal_t>;
using AtomVector = std::vector<atom_t>;
using SymLitVec = std::vector<SymbolicLiteral>;
static S b(bool x) { return x ? "1" : "0"; }
template <class T> S str(T const &x) { std::ostringstream o; o << x; return o.str(); }
static SV split(S const &s, char d) { SV r; S c; for (char x : s) { if (x == d) { if (!c.empty()) r.push_back(c); c.clear(); } else c += x; } if (!c.empty()) r.push_back(c); return r; }
static S join(SV const &v, S const &d) { S r; for (size_t i = 0; i < v.size(); ++i) r += (i ? d : S()) + v[i]; return r; }
template <class T> S joinv(T const &v, S const &d = ",") { SV r; for (auto const &x : v) r.push_back(str(x)); return join(r, d); }
static S num(double d) { char x[64]; snprintf(x, 64, "%g", d); return x; }
static S res(SolveResult r) {
    S t = r.is_satisfiable() ? (r.is_exhausted() ? "SATISFIABLE" : "SATISFIABLE+") : r.is_unsatisfiable() ? "UNSATISFIABLE" : "UNKNOWN";
    if (str(r) != t + (r.is_interrupted() ? "/INTERRUPTED" : "") || !(r == SolveResult{r.to_c()}) || r != SolveResult{r.to_c()} || r == SolveResult{r.to_c() ^ 8U}) { return "!" + str(r); }
    S s = r.is_unknown() ? S("--") : b(r.is_satisfiable()) + b(r.is_unsatisfiable());
    return s + b(r.is_unknown()) + b(r.is_exhausted()) + b(r.is_interrupted());
}
static std::vector<int> g_prefix;
static std::map<S, int> g_used;
static std::map<S, int> g_bound{{"thread", 2}, {"async", 3}};
static std::vector<std::pair<int, int>> g_path;
static unsigned choice(char const *tag, unsigned n) {
    static std::map<S, int> &bound = g_bound;
    auto it = bound.find(tag);
    if (g_path.empty()) g_used.clear();
    if (it != bound.end() && g_used[tag] >= it->second) return 0;
    int c = g_path.size() < g_prefix.size() ? g_prefix[g_path.size()] : 0;
    g_path.emplace_back(c, static_cast<int>(n));
    if (c) ++g_used[tag];
    return static_cast<unsigned>(c);
}
struct Err { S m; };
static Symbol pt(S const &s) { return parse_term(s.c_str()); }
struct Obs : GroundProgramObserver {
    SV log; std::set<S> skip;
    static S q(bool x) { return b(x); }
    static S q(Symbol x) { return x.to_string(); }
    static S q(char const *x) { return x; }
    static S q(ExternalType x) { return x == ExternalType::Free ? "Free" : x == ExternalType::True ? "True" : x == ExternalType::False ? "False" : "Release"; }
    static S q(HeuristicType x) { static char const *n[] = {"Level", "Sign", "Factor", "Init", "True", "False"}; return n[static_cast<int>(x)]; }
    template <class T, typename std::enable_if<std::is_integral<T>::value, int>::type = 0> static S q(T x) { return std::to_string(x); }
    static S q(WeightedLiteral const &x) { return "[" + std::to_string(x.literal()) + "," + std::to_string(x.weight()) + "]"; }
    template <class T> static S q(Span<T> x) { SV r; for (auto const &y : x) r.push_back(q(y)); return "[" + join(r, ",") + "]"; }
    void e(S n, SV a) { if (!skip.count(n)) log.push_back(a.empty() ? n : n + " " + join(a, " ")); }
    void init_program(bool i) override { e("init_program", {q(i)}); }
    void begin_step() override { e("begin_step", {}); }
    void end_step() override { e("end_step", {}); }
    void rule(bool c, AtomSpan h, LiteralSpan bd) override { e("rule", {q(c), q(h), q(bd)}); }
    void weight_rule(bool c, AtomSpan h, weight_t l, WeightedLiteralSpan bd) override { e("weight_rule", {q(c), q(h), q(l), q(bd)}); }
    void minimize(weight_t p, WeightedLiteralSpan l) override { e("minimize", {q(p), q(l)}); }
    void project(AtomSpan a) override { e("project", {q(a)}); }
    void output_atom(Symbol s, atom_t a) override { e("output_atom", {q(s), q(a)}); }
    void output_term(Symbol s, LiteralSpan c) override { e("output_term", {q(s), q(c)}); }
    void external(atom_t a, ExternalType t) override { e("external", {q(a), q(t)}); }
    void assume(LiteralSpan l) override { e("assume", {q(l)}); }
    void heuristic(atom_t a, HeuristicType t, int bi, unsigned p, LiteralSpan c) override { e("heuristic", {q(a), q(t), q(bi), q(p), q(c)}); }
    void acyc_edge(int u, int v, LiteralSpan c) override { e("acyc_edge", {q(u), q(v), q(c)}); }
    void theory_term_number(id_t i, int n) override { e("theory_term_number", {q(i), q(n)}); }
    void theory_term_string(id_t i, char const *n) override { e("theory_term_string", {q(i), q(n)}); }
    void theory_term_compound(id_t i, int n, IdSpan a) override { e("theory_term_compound", {q(i), q(n), q(a)}); }
    void theory_element(id_t i, IdSpan t, LiteralSpan c) override { e("theory_element", {q(i), q(t), q(c)}); }
    void theory_atom(id_t a, id_t t, IdSpan el) override { e("theory_atom", {q(a), q(t), q(el)}); }
    void theory_atom_with_guard(id_t a, id_t t, IdSpan el, id_t o, id_t r) override { e("theory_atom_with_guard", {q(a), q(t), q(el), q(o), q(r)}); }
};
// A propagator that logs all it sees and acts as told (see ipy.py).
struct Prop : Heuristic {
    SV ini, rules;
    S flags;
    std::map<S, int> V;
    std::map<size_t, int> fired;
    SV *log;
    int n;
    int lit(S const &x) { if (x[0] == '-') return -lit(x.substr(1)); auto it = V.find(x); if (it == V.end()) throw Err{"no literal " + x}; return it->second; }
    std::vector<int> lits(S const &x) { std::vector<int> r; if (x != ".") for (auto &y : split(x, ',')) r.push_back(lit(y)); return r; }
    void out(S const &x) { log->push_back(str(n) + x); }
    static S view(Assignment a) {
        uint32_t dl = a.decision_level();
        S r = str(dl) + " " + str(a.root_level()) + " " + b(a.has_conflict()) + b(a.is_total()) + "|";
        int mx = 0;
        size_t i = 0;
        for (auto x : a) {
            if (x != a[i] || x != a.at(i) || *(a.begin() + i) != x) r += "!at";
            ++i;
            mx = std::max(mx, std::abs(x));
            r += str(x) + ":";
            for (int y : {x, -x}) {
                auto v = a.truth_value(y);
                r += v == TruthValue::Free ? "-" : b(v == TruthValue::True);
                r += b(a.is_true(y)) + b(a.is_false(y)) + b(a.is_fixed(y)) + b(a.has_literal(y));
                if (v != TruthValue::Free) r += str(a.level(y));
                r += ",";
            }
            r += " ";
        }
        if (i != a.size() || static_cast<size_t>(a.end() - a.begin()) != i) r += "!size";
        r += a.has_literal(mx + 3) ? "!" : "";
        r += "|";
        for (uint32_t l = 1; l <= dl; ++l) r += str(a.decision(l)) + " ";
        r += "|";
        auto t = a.trail();
        i = 0;
        for (auto x : t) { if (t[i] != x || t.at(i) != x || *(t.begin() + i) != x) r += "!trail"; ++i; r += str(x) + " "; }
        if (i != t.size()) r += "!size";
        r += "|";
        for (uint32_t l = 0; l <= dl; ++l) {
            auto p = t.begin_offset(l), q = t.end_offset(l);
            r += str(p) + "-" + str(q) + " ";
            auto k = p;
            for (auto it = t.begin(l), ie = t.end(l); it != ie; ++it, ++k) if (*it != t[k]) r += "!level";
            if (k != q) r += "!end";
        }
        return r;
    }
    void init(PropagateInit &I) override {
        V.clear();
        auto a = I.assignment();
        S r = "I" + str(I.number_of_threads()) + " " + "NTFB"[static_cast<int>(I.get_check_mode())] + " ";
        V["T"] = 1;
        SV names;
        for (auto x : I.symbolic_atoms()) {
            auto sl = I.solver_literal(x.literal());
            names.push_back(str(x.symbol()) + "=" + str(sl) + "/" + str(I.solver_literal(-x.literal())));
            V[str(x.symbol())] = sl;
        }
        std::sort(names.begin(), names.end());
        r += join(names, " ") + "|";
        int i = 0;
        for (auto t : I.theory_atoms()) {
            auto sl = I.solver_literal(t.literal());
            V["&" + str(i)] = sl;
            r += " " + str(sl);
            int j = 0;
            for (auto e : t.elements()) { auto l = I.solver_literal(e.condition_id()); V["&" + str(i) + "." + str(j++)] = l; r += ":" + str(l); }
            ++i;
        }
        out(r + "|" + view(a));
        for (auto &act : ini) {
            auto w = split(act, ' ');
            S const &k = w[0];
            bool res = true;
            if (k == "watch" && w.size() > 2) I.add_watch(lit(w[1]), static_cast<id_t>(std::stoul(w[2])));
            else if (k == "watch") I.add_watch(lit(w[1]));
            else if (k == "unwatch" && w.size() > 2) I.remove_watch(lit(w[1]), static_cast<id_t>(std::stoul(w[2])));
            else if (k == "unwatch") I.remove_watch(lit(w[1]));
            else if (k == "freeze") I.freeze_literal(lit(w[1]));
            else if (k == "lit" && w.size() < 3) V[w[1]] = I.add_literal();
            else if (k == "lit") V[w[1]] = I.add_literal(w[2] == "1");
            else if (k == "clause") { auto l = lits(w[1]); res = I.add_clause(l); }
            else if (k == "wc") {
                std::vector<WeightedLiteral> wl;
                if (w[2] != ".") for (auto &x : split(w[2], ',')) { auto y = split(x, '='); wl.emplace_back(lit(y[0]), std::stoi(y[1])); }
                auto t = static_cast<WeightConstraintType>(w.size() > 4 ? std::stoi(w[4]) : 0);
                res = w.size() > 5 ? I.add_weight_constraint(lit(w[1]), wl, std::stoi(w[3]), t, w[5] == "1") : I.add_weight_constraint(lit(w[1]), wl, std::stoi(w[3]), t);
            }
            else if (k == "min" && w.size() > 3) I.add_minimize(lit(w[1]), std::stoi(w[2]), std::stoi(w[3]));
            else if (k == "min") I.add_minimize(lit(w[1]), std::stoi(w[2]));
            else if (k == "prop") res = I.propagate();
            else if (k == "cmode") { I.set_check_mode(w[1] == "N" ? PropagatorCheckMode::None : w[1] == "T" ? PropagatorCheckMode::Total : w[1] == "F" ? PropagatorCheckMode::Partial : PropagatorCheckMode::Both); out(S("m") + "NTFB"[I.get_check_mode()]); }
            else if (k == "umode") { out(S("u") + (I.get_undo_mode() == PropagatorUndoMode::Always ? "A" : "D")); I.set_undo_mode(w[1] == "A" ? PropagatorUndoMode::Always : PropagatorUndoMode::Default); out(S("u") + (I.get_undo_mode() == PropagatorUndoMode::Always ? "A" : "D")); }
            else throw Err{"action " + k};
            out("i" + act + (k == "lit" ? "=" + str(V[w[1]]) : "") + (res ? "" : "=0") + "|" + view(a));
            if (!res) break;
        }
    }
    bool cond(Assignment const &a, SV const &f) { if (f[1] == ".") return true; for (int l : lits(f[1])) if (!a.is_true(l)) return false; return true; }
    void act(char ev, PropagateControl &C) {
        auto a = C.assignment();
        for (size_t i = 0; i < rules.size(); ++i) {
            auto f = split(rules[i], ':');
            if (f[0][0] != ev || !cond(a, f)) continue;
            if (f[0].size() > 1 && fired[i] >= std::stoi(f[0].substr(1))) continue;
            ++fired[i];
            auto w = split(f[2], ' ');
            S const &k = w[0];
            bool res = true;
            S x;
            if (k == "clause" || k == "nogood") {
                auto l = lits(w[1]);
                if (k == "nogood") for (auto &y : l) y = -y;
                S t = w.size() > 2 ? w[2] : S();
                if (t.empty()) res = C.add_clause(l);
                else res = C.add_clause(l, t == "t" ? ClauseType::Volatile : t == "l" ? ClauseType::Static : t == "tl" ? ClauseType::VolatileStatic : ClauseType::Learnt);
            }
            else if (k == "lit") { V[w[1]] = C.add_literal(); x = "=" + str(V[w[1]]); }
            else if (k == "watch") C.add_watch(lit(w[1]));
            else if (k == "unwatch") C.remove_watch(lit(w[1]));
            else if (k == "has") x = C.has_watch(lit(w[1])) ? "=1" : "=0";
            else if (k == "prop") res = C.propagate();
            else throw Err{"action " + k};
            out("r" + str(i) + x + (res ? "" : "=0") + "|" + view(a));
            if (!res) break;
        }
    }
    static S nums(LiteralSpan c) { S r; for (auto x : c) r += " " + str(x); return r; }
    void propagate(PropagateControl &C, LiteralSpan c) override { if (flags.find('p') == S::npos) return; out("P" + str(C.thread_id()) + nums(c) + "|" + view(C.assignment())); act('p', C); }
    void undo(PropagateControl const &C, LiteralSpan c) noexcept override { if (flags.find('u') == S::npos) return; out("U" + str(C.thread_id()) + nums(c) + "|" + view(C.assignment())); }
    void check(PropagateControl &C) override { if (flags.find('c') == S::npos) return; out("C" + str(C.thread_id()) + "|" + view(C.assignment())); act('c', C); }
    literal_t decide(id_t id, Assignment const &a, literal_t fb) override {
        int r = fb;
        for (size_t i = 0; i < rules.size(); ++i) {
            auto f = split(rules[i], ':');
            if (f[0][0] != 'd' || !cond(a, f)) continue;
            if (f[0].size() > 1 && fired[i] >= std::stoi(f[0].substr(1))) continue;
            ++fired[i];
            auto w = split(f[2], ' ');
            if (w[0] == "none") { r = 0; break; }
            if (w[0] == "fb") break;
            bool done = false;
            for (int l : lits(w[1])) if (a.truth_value(l) == TruthValue::Free) { r = l; done = true; break; }
            if (done) break;
        }
        out("D" + str(id) + " " + str(fb) + " " + str(r) + "|" + view(a));
        return r;
    }
};
struct PropOnly : Propagator { // the same without decisions
    Prop p;
    void init(PropagateInit &I) override { p.init(I); }
    void propagate(PropagateControl &C, LiteralSpan c) override { p.propagate(C, c); }
    void undo(PropagateControl const &C, LiteralSpan c) noexcept override { p.undo(C, c); }
    void check(PropagateControl &C) override { p.check(C); }
};

struct I {
    std::vector<std::unique_ptr<Propagator>> props;
    SV plog, flog;
    std::map<S, std::pair<S, std::vector<Symbol>>> funs;
    std::unique_ptr<Control> ctl;
    std::unique_ptr<SolveHandle> h;
    S level = "b";
    SV probe, msgs;
    std::map<S, long> vars;
    Obs obs;
    int k = 0;
    void reset() { h.reset(); ctl.reset(); level = "b"; probe.clear(); msgs.clear(); vars.clear(); obs.log.clear(); obs.skip.clear(); props.clear(); plog.clear(); flog.clear(); funs.clear(); }
    literal_t lit(S const &s) { auto x = ctl->symbolic_atoms()[pt(s)]; if (ctl->symbolic_atoms().find(pt(s)) == ctl->symbolic_atoms().end()) throw std::runtime_error("no atom"); return x.literal(); }
    TruthValue truth(S const &v) { return v == "t" ? TruthValue::True : v == "f" ? TruthValue::False : TruthValue::Free; }
    S atom(SymbolicAtom a) { return a.symbol().to_string() + "/" + b(a.is_fact()) + b(a.is_external()) + "/" + str(a.literal()); }
    S model(Model const &m) {
        auto f = [&](unsigned k) { SV r; for (auto const &s : m.symbols(ShowType{k})) r.push_back(s.to_string()); std::sort(r.begin(), r.end()); return join(r, ","); };
        S r = f(ShowType::Atoms);
        if (level == "f") {
            static unsigned const bits[] = {ShowType::Atoms, ShowType::Terms, ShowType::Shown, ShowType::Theory, ShowType::Complement};
            SV all;
            for (unsigned i = 0; i < 32; ++i) { unsigned x = 0; for (int j = 0; j < 5; ++j) if (i >> j & 1) x |= bits[j]; all.push_back(f(x)); }
            r += "|" + join(all, ";") + "|" + str(m) + "|" + joinv(m.cost()) + "|";
            if (vp_set_choice) r += joinv(m.priorities());
            r += "|" + str(m.number()) + " " + str(m.thread_id()) + " " + b(m.optimality_proven()) + " " + (m.type() == ModelType::StableModel ? "StableModel" : m.type() == ModelType::BraveConsequences ? "BraveConsequences" : "CautiousConsequences") + "|";
            for (auto &s : probe) r += b(m.contains(pt(s)));
            auto sa = m.context().symbolic_atoms();
            for (auto &s : probe) {
                auto it = sa.find(pt(s));
                if (it == sa.end()) { r += " -"; continue; }
                auto l = it->literal();
                r += " " + b(m.is_true(l)) + b(m.is_true(-l));
                if (vp_set_choice) { auto c = m.is_consequence(l); r += c == ConsequenceType::True ? "1" : c == ConsequenceType::False ? "0" : "-"; }
            }
        }
        return r;
    }
    // all symbolic or all literals
    bool symbolic(SV const &t) { for (auto &x : t) if (x[0] != '+' && !(x[0] == '-' && !isdigit(x[1]))) return false; return true; }
    SymLitVec sl(SV const &t) { SymLitVec r; for (auto &x : t) r.emplace_back(pt(x.substr(1)), x[0] == '+'); return r; }
    LiteralVector ll(SV const &t) {
        LiteralVector r;
        for (auto &x : t) {
            if (x[0] == '#') r.push_back(lit(x.substr(1)));
            else if (x[0] == '~') r.push_back(-lit(x.substr(1)));
            else if (x[0] == '+' || (x[0] == '-' && !isdigit(x[1]))) throw Err{"mixed"};
            else r.push_back(std::stoi(x));
        }
        return r;
    }
    SolveHandle start(S const &ass, SolveEventHandler *eh, bool as, bool y) {
        auto t = split(ass, ' ');
        if (t.empty() && !eh && !as && y) return ctl->solve();
        if (symbolic(t)) { auto v = sl(t); return ctl->solve(SymbolicLiteralSpan{v}, eh, as, y); }
        auto v = ll(t);
        return ctl->solve(LiteralSpan{v}, eh, as, y);
    }
    bool hook(Model const &m, S const &hk, SV &out) {
        ++k;
        bool go = true;
        for (auto &part : split(hk, ';')) {
            auto p = part.find(':');
            int n = std::stoi(part.substr(0, p));
            if (n != 0 && n != k) continue;
            S act = part.substr(p + 1), a = act.substr(0, act.find(' ')), arg = act.find(' ') == S::npos ? "" : act.substr(act.find(' ') + 1);
            if (a == "stop") go = false;
            else if (a == "clause" || a == "nogood") {
                auto t = split(arg, ' ');
                bool inv = a == "nogood";
                if (symbolic(t)) { auto v = sl(t); if (inv) for (auto &x : v) x = SymbolicLiteral(x.symbol(), !x.is_positive()); m.context().add_clause(SymbolicLiteralSpan{v}); }
                else { auto v = ll(t); if (inv) for (auto &x : v) x = -x; m.context().add_clause(LiteralSpan{v}); }
            }
            else if (a == "extend") { SymbolVector v; for (auto &s : split(arg, ' ')) v.push_back(pt(s)); const_cast<Model &>(m).extend(v); }
            else if (a == "again") out.push_back("M" + model(m));
            else if (a == "interrupt") ctl->interrupt();
            else if (a == "raise") throw Err{"KeyError"};
        }
        return go;
    }
    // user statistics: trees {k:v,..}, [v,..], numbers, +n (adds to the old value)
    SV us, ulog;
    struct UT { char k; std::vector<std::pair<S, UT>> c; double v = 0; };
    static UT utree(S const &s, size_t &i) {
        if (s[i] == '{' || s[i] == '[') {
            UT r{s[i], {}};
            char e = s[i++] == '{' ? '}' : ']';
            while (s[i] != e) {
                S n;
                if (e == '}') { auto j = s.find(':', i); n = s.substr(i, j - i); i = j + 1; }
                auto x = utree(s, i);
                r.c.emplace_back(n, x);
                if (s[i] == ',') ++i;
            }
            ++i;
            return r;
        }
        auto j = s.find_first_of(",]}", i);
        S t = s.substr(i, j - i);
        i = j == S::npos ? s.size() : j;
        UT r{t[0] == '+' ? '+' : 'n', {}};
        r.v = std::stod(t[0] == '+' ? t.substr(1) : t);
        return r;
    }
    static StatisticsType utype(UT const &t) { return t.k == '{' ? StatisticsType::Map : t.k == '[' ? StatisticsType::Array : StatisticsType::Value; }
    void uset(UserStatistics x, UT const &t, bool fresh, bool ens) {
        switch (x.type()) {
            case StatisticsType::Map:
                for (auto &c : t.c) {
                    bool has = x.has_subkey(c.first.c_str());
                    auto y = has ? x[c.first.c_str()] : x.add_subkey(c.first.c_str(), utype(c.second));
                    uset(y, c.second, !has, ens);
                }
                break;
            case StatisticsType::Array: {
                size_t i = 0, n = x.size();
                bool same = true;
                for (auto &c : t.c) same = same && utype(c.second) == StatisticsType::Value;
                if (same && ens) x.ensure_size(t.c.size(), StatisticsType::Value);
                for (auto &c : t.c) { auto y = i < x.size() ? (i % 2 ? x.at(i) : x[i]) : x.push(utype(c.second)); uset(y, c.second, i >= n, ens); ++i; }
                if (x.size() != std::max(n, t.c.size())) throw Err{"size"};
                break;
            }
            default: x.set_value(t.k == '+' && !fresh ? x.value() + t.v : t.v);
        }
    }
    S uview(UserStatistics x) {
        SV r;
        switch (x.type()) {
            case StatisticsType::Map:
                for (auto k : x.keys()) { if (!x.has_subkey(k)) throw Err{"subkey"}; if (uview(x[k]) != uview(x.at(k))) throw Err{"at"}; r.push_back(S(k) + ":" + uview(x[k])); }
                if (x.has_subkey("zz")) throw Err{"zz"};
                try { x["zz"]; throw Err{"no error"}; } catch (std::exception const &) { }
                std::sort(r.begin(), r.end());
                return "{" + join(r, ",") + "}";
            case StatisticsType::Array: {
                size_t i = 0;
                for (auto y : x) { r.push_back(uview(y)); if (r.back() != uview(x[i]) || r.back() != uview(x.at(i))) throw Err{"at"}; ++i; }
                if (i != x.size()) throw Err{"size"};
                try { x[i]; throw Err{"no error"}; } catch (std::exception const &) { }
                return "[" + join(r, ",") + "]";
            }
            default: if (double(x) != x.value()) throw Err{"value"}; return num(x.value());
        }
    }
    void onstats(UserStatistics s, UserStatistics a) {
        try {
            for (int i = 0; i < 2; ++i) {
                S t = us[i];
                bool ens = t[0] == '*';
                size_t p = t[0] == '*' || t[0] == '!';
                if (t[0] != '!') uset(i ? a : s, utree(t, p), false, ens);
                else for (auto &c : utree(t, p).c) {
                    auto x = i ? a : s;
                    auto arr = x.has_subkey(c.first.c_str()) ? x[c.first.c_str()] : x.add_subkey(c.first.c_str(), StatisticsType::Array);
                    for (auto &e : c.second.c) uset(arr.push(utype(e.second)), e.second, true, false);
                }
            }
            ulog.push_back(uview(s) + "/" + uview(a));
        }
        catch (Err const &e) { ulog.push_back("E:" + e.m); }
        catch (std::exception const &e) { ulog.push_back(S("E:") + e.what()); }
    }
    struct EH : SolveEventHandler {
        I &i; SV &out; S hk; bool ev, mod;
        EH(I &i, SV &out, S hk, bool ev, bool mod) : i(i), out(out), hk(hk), ev(ev), mod(mod) {}
        bool on_model(Model &m) override { if (!mod) return true; out.push_back("M" + i.model(m)); return i.hook(m, hk, out); }
        void on_unsat(Span<int64_t> l) override { if (ev) out.push_back("U" + joinv(l)); }
        void on_statistics(UserStatistics s, UserStatistics a) override { if (!i.us.empty()) i.onstats(s, a); }
        void on_finish(SolveResult r) override { if (ev) out.push_back("F" + res(r)); }
    };
    S solve(S const &mode, S const &ass, S const &hk) {
        SV out;
        k = 0;
        bool ev = mode.find('e') != S::npos, as = mode.find('A') != S::npos;
        EH eh(*this, out, hk, ev, mode[0] == 'c' || mode[0] == 'a');
        SolveEventHandler *p = ev || !us.empty() || mode[0] == 'c' || mode[0] == 'a' ? &eh : nullptr;
        SolveResult r;
        {
            auto h = start(ass, p, mode[0] == 'a' || as, mode[0] == 'y' || mode[0] == 'm');
            switch (mode[0]) {
                case 'p': case 'c': r = h.get(); break;
                case 'a': h.wait(); r = h.get(); break;
                case 'y': for (auto const &m : h) { out.push_back("M" + model(m)); if (!hook(m, hk, out)) break; } r = h.get(); break;
                case 'm':
                    for (;;) {
                        h.resume();
                        auto const &m = h.model();
                        if (!m) break;
                        out.push_back("M" + model(m));
                        if (!hook(m, hk, out)) break;
                    }
                    r = h.get();
                    break;
            }
            if (r.is_unsatisfiable() && (ev || mode[0] != 'p' && mode[0] != 'c')) out.push_back("K" + joinv(h.core()));
            if (ev && vp_set_choice) { auto m = h.last(); if (m) out.push_back("L" + model(*m)); }
        }
        out.push_back("R" + res(r));
        return join(out, "\x01");
    }
    Configuration conf(S const &path) {
        auto c = ctl->configuration();
        for (auto &p : split(path, '.')) {
            Configuration d = isdigit(p[0]) ? c[static_cast<size_t>(std::stoi(p))] : c[p.c_str()];
            c.~Configuration(); new (&c) Configuration(d);
        }
        return c;
    }
    void cdump(Configuration c, S const &p, bool d, SV &out) {
        SV ks;
        if (c.is_map()) for (auto k : c.keys()) ks.push_back(k);
        out.push_back(p + " #" + (c.is_array() ? str(c.size()) : S("-")) + (c.is_map() ? " " + join(ks, " ") : S()));
        for (auto &k : ks) {
            auto x = ks.size() % 2 ? c[k.c_str()] : c.get(k.c_str());
            S q = p + "." + k;
            if (d) out.push_back(q + " ?" + x.decription());
            if (x.is_value()) out.push_back(q + " " + (x.is_assigned() ? "=" + x.value() : S("-")));
            else cdump(x, q, d, out);
        }
        if (c.is_array()) { size_t i = 0; for (auto x : c) { cdump(i % 2 ? c.at(i) : i % 4 ? c[i] : x, p + "." + str(i), d, out); ++i; } if (i != c.size() || c.empty() != (i == 0)) throw Err{"size"}; }
    }
    S tree(Statistics s) {
        switch (s.type()) {
            case StatisticsType::Value: return num(s.value());
            case StatisticsType::Array: { SV r; for (auto x : s) r.push_back(tree(x)); return "[" + join(r, ",") + "]"; }
            case StatisticsType::Map: { SV k; for (auto x : s.keys()) k.push_back(x); std::sort(k.begin(), k.end()); SV r; for (auto &x : k) r.push_back(x + ":" + tree(s[x.c_str()])); return "{" + join(r, ",") + "}"; }
            default: return "empty";
        }
    }
    S be(S const &stmts) {
        SV out;
        auto lits = [&](S const &s) { LiteralVector r; for (auto &x : split(s, ',')) r.push_back(x[0] == '-' ? -static_cast<literal_t>(vars.at(x.substr(1))) : static_cast<literal_t>(vars.at(x))); return r; };
        auto atoms = [&](S const &s) { AtomVector r; for (auto &x : split(s, ',')) r.push_back(static_cast<atom_t>(vars.at(x))); return r; };
        auto ids = [&](S const &s) { std::vector<id_t> r; for (auto &x : split(s, ',')) r.push_back(static_cast<id_t>(vars.at(x))); return r; };
        auto wl = [&](S const &s) { std::vector<WeightedLiteral> r; for (auto &x : split(s, ',')) { auto p = x.find('='); r.emplace_back(lits(x.substr(0, p))[0], std::stoi(x.substr(p + 1))); } return r; };
        Backend bk{ctl->backend()};
        for (auto &st : split(stmts, ';')) {
            auto a = split(st, ' ');
            S c = a[0];
            a.erase(a.begin());
            for (auto &x : a) if (x == ".") x.clear();
            auto n = a.size();
            if (c == "atom") vars[a[0]] = n > 1 ? bk.add_atom(pt(a[1])) : bk.add_atom();
            else if (c == "rule") bk.rule(n > 2 && a[2] == "1", atoms(a[0]), n > 1 ? lits(a[1]) : LiteralVector{});
            else if (c == "wrule") bk.weight_rule(n > 3 && a[3] == "1", atoms(a[0]), std::stoi(a[1]), wl(a[2]));
            else if (c == "min") bk.minimize(std::stoi(a[0]), wl(a[1]));
            else if (c == "proj") bk.project(atoms(a[0]));
            else if (c == "ext") bk.external(vars.at(a[0]), n < 2 || a[1] == "f" ? ExternalType::False : a[1] == "t" ? ExternalType::True : a[1] == "u" ? ExternalType::Free : ExternalType::Release);
            else if (c == "assume") bk.assume(lits(a[0]));
            else if (c == "heu") {
                static std::map<S, HeuristicType> const T{{"level", HeuristicType::Level}, {"sign", HeuristicType::Sign}, {"factor", HeuristicType::Factor}, {"init", HeuristicType::Init}, {"true", HeuristicType::True}, {"false", HeuristicType::False}};
                bk.heuristic(vars.at(a[0]), T.at(a[1]), std::stoi(a[2]), static_cast<unsigned>(std::stoi(a[3])), lits(a[4]));
            }
            else if (c == "edge") bk.acyc_edge(std::stoi(a[0]), std::stoi(a[1]), lits(a[2]));
            else if (c == "tn") vars[a[0]] = bk.add_theory_term_number(std::stoi(a[1]));
            else if (c == "ts") vars[a[0]] = bk.add_theory_term_string(a[1].c_str());
            else if (c == "tf") vars[a[0]] = bk.add_theory_term_function(a[1].c_str(), ids(a[2]));
            else if (c == "tq") vars[a[0]] = bk.add_theory_term_sequence(a[1] == "Tuple" ? TheorySequenceType::Tuple : a[1] == "Set" ? TheorySequenceType::Set : TheorySequenceType::List, ids(a[2]));
            else if (c == "ty") vars[a[0]] = bk.add_theory_term_symbol(pt(a[1]));
            else if (c == "te") vars[a[0]] = bk.add_theory_element(ids(a[1]), lits(a[2]));
            else if (c == "ta") {
                bool at = n > 5, g = n > 3 && a[3] != "_";
                id_t t = vars.at(a[1]), ai = at ? (a[5] == "0" ? 0 : vars.at(a[5])) : 0;
                auto e = ids(a[2]);
                vars[a[0]] = at ? (g ? bk.theory_atom(ai, t, e, a[3].c_str(), vars.at(a[4])) : bk.theory_atom(ai, t, e)) : (g ? bk.theory_atom(t, e, a[3].c_str(), vars.at(a[4])) : bk.theory_atom(t, e));
            }
            else if (c == "raise") throw Err{"KeyError"};
            if (c == "atom" || (c[0] == 't')) out.push_back(str(vars[a[0]]));
        }
        return join(out, " ");
    }
    S term(TheoryTerm t) {
        S r;
        auto args = [&] { SV v; for (auto const &x : t.arguments()) v.push_back(term(x)); return "(" + join(v, " ") + ")"; };
        switch (t.type()) {
            case TheoryTermType::Number: r = "Nu" + str(t.number()); break;
            case TheoryTermType::Symbol: r = "Sy'" + S(t.name()) + "'"; break;
            case TheoryTermType::Function: r = "Fu'" + S(t.name()) + "'" + args(); break;
            case TheoryTermType::Tuple: r = "Tu" + args(); break;
            case TheoryTermType::Set: r = "Se" + args(); break;
            case TheoryTermType::List: r = "Li" + args(); break;
        }
        S s = t.to_string();
        if (str(t) != s) s += "!" + str(t);
        return r + "<" + s + ">";
    }
    S js(S const &x) {
        S r = "\"";
        for (char c : x) r += c == '"' || c == '\\' ? S("\\") + c : c == '\n' ? S("\\n") : S(1, c);
        return r + "\"";
    }
    S term2(TheoryTerm t) {
        static char const *names[] = {"Tuple", "List", "Set", "Function", "Number", "Symbol"};
        auto ty = t.type();
        S n = names[int(ty)], v = "\"\"";
        SV as;
        if (ty == TheoryTermType::Number) v = str(t.number());
        if (ty == TheoryTermType::Symbol || ty == TheoryTermType::Function) v = js(t.name());
        if (ty != TheoryTermType::Symbol && ty != TheoryTermType::Number) for (auto const &x : t.arguments()) as.push_back(term2(x));
        S s = t.to_string();
        if (str(t) != s) s += "!" + str(t);
        return "[" + js(n) + "," + js(s) + "," + v + ",[" + join(as, ",") + "]]";
    }
    S theory2(TheoryAtoms as) {
        SV out;
        for (auto it = as.begin(); it != as.end(); it++) {
            auto const a = *it;
            SV es;
            for (auto const &e : a.elements()) {
                SV t;
                for (auto const &x : e.tuple()) t.push_back(term2(x));
                S s = e.to_string();
                if (str(e) != s) s += "!" + str(e);
                es.push_back("[[" + join(t, ",") + "],[" + joinv(e.condition()) + "]," + str(e.condition_id()) + "," + js(s) + "]");
            }
            S s = a.to_string();
            if (str(a) != s) s += "!" + str(a);
            out.push_back("[" + term2(a.term()) + ",[" + join(es, ",") + "],[" + (a.has_guard() ? js(a.guard().first) + "," + term2(a.guard().second) : S()) + "]," + str(a.literal()) + "," + js(s) + "]");
        }
        return "[" + join(out, ",") + "]";
    }
    S theory(TheoryAtoms as) {
        SV out;
        size_t n = 0;
        for (auto const &a : as) {
            ++n;
            SV es;
            for (auto const &e : a.elements()) {
                SV t;
                for (auto const &x : e.tuple()) t.push_back(term(x));
                es.push_back(join(t, ",") + ":" + joinv(e.condition()) + ":" + str(e.condition_id()) + "<" + e.to_string() + ">");
            }
            S s = term(a.term()) + "{" + join(es, "; ") + "}|";
            if (a.has_guard()) s += S(a.guard().first) + "|" + term(a.guard().second) + "|";
            s += str(a.literal()) + "<" + a.to_string() + ">";
            out.push_back(s);
        }
        if (n != as.size()) throw Err{"size"};
        return join(out, "\x01");
    }
    S run(SV const &c) {
        S const &o = c[0];
        auto n = c.size();
        if (o == "reset") { reset(); return "ok"; }
        if (o == "choices") { g_prefix.clear(); g_path.clear(); for (auto &x : split(n > 1 ? c[1] : "", ',')) g_prefix.push_back(std::stoi(x)); if (vp_set_choice) vp_set_choice(choice); return "ok"; }
        if (o == "path") { SV r; for (auto &x : g_path) r.push_back(std::to_string(x.first) + ":" + std::to_string(x.second)); return join(r, " "); }
        if (o == "new") {
            auto a = split(n > 1 ? c[1] : "", ' ');
            std::vector<char const *> v;
            for (auto &x : a) v.push_back(x.c_str());
            msgs.clear();
            h.reset();
            Logger l = [this](WarningCode w, char const *m) {
                static char const *N[] = {"OperationUndefined", "RuntimeError", "AtomUndefined", "FileIncluded", "VariableUnbounded", "GlobalVariable", "Other"};
                msgs.push_back(S(N[static_cast<int>(w)]) + "|" + m);
            };
            if (n > 2 && c[2].empty()) ctl.reset(new Control(StringSpan{v.data(), v.size()}));
            else if (n > 2) ctl.reset(new Control(StringSpan{v.data(), v.size()}, l, std::stoi(c[2])));
            else ctl.reset(new Control(StringSpan{v.data(), v.size()}, l));
            return "ok";
        }
        if (o == "msgs") { S r = join(msgs, "\x01"); msgs.clear(); return r; }
        if (o == "add") { auto p = split(c[2], ','); std::vector<char const *> v; for (auto &x : p) v.push_back(x.c_str()); ctl->add(c[1].c_str(), StringSpan{v.data(), v.size()}, c[3].c_str()); return "ok"; }
        if (o == "load") { ctl->load(c[1].c_str()); return "ok"; }
        if (o == "inter") {
            S const &mode = c[1];
            S seen;
            auto cb = [&seen](AST::Node const &n) { if (!seen.empty()) seen += ","; seen += n.to_string(); };
            char const *f = c[2].c_str();
            std::ifstream in(c[2]);
            std::ostringstream text;
            text << in.rdbuf();
            if (mode == "load") ctl->load(f);
            else if (mode == "files") AST::parse_files({f}, cb, *ctl);
            else if (mode == "nofiles") AST::parse_files({f}, cb);
            else if (mode == "string") AST::parse_string(text.str().c_str(), cb, *ctl);
            else if (mode == "nostring") AST::parse_string(text.str().c_str(), cb);
            else ctl->add("base", {}, text.str().c_str());
            return seen;
        }
        if (o == "term" || o == "parse") {
            Logger l = [this](WarningCode w, char const *m) {
                static char const *N[] = {"OperationUndefined", "RuntimeError", "AtomUndefined", "FileIncluded", "VariableUnbounded", "GlobalVariable", "Other"};
                msgs.push_back(S(N[static_cast<int>(w)]) + "|" + m);
            };
            S const &lim = c[o == "term" ? 2 : 3];
            if (o == "term") {
                if (lim.empty()) return parse_term(c[1].c_str()).to_string();
                if (lim == "d") return parse_term(c[1].c_str(), l).to_string();
                return parse_term(c[1].c_str(), l, std::stoi(lim)).to_string();
            }
            int k = 0;
            auto cb = [&k](AST::Node const &) { ++k; };
            if (c[1] == "str") {
                if (lim.empty()) AST::parse_string(c[2].c_str(), cb);
                else if (lim == "d") AST::parse_string(c[2].c_str(), cb, l);
                else AST::parse_string(c[2].c_str(), cb, l, std::stoi(lim));
            }
            else {
                auto f = split(c[2], ',');
                std::vector<char const *> v;
                for (auto &x : f) v.push_back(x.c_str());
                StringSpan sp{v.data(), v.size()};
                if (lim.empty()) AST::parse_files(sp, cb);
                else if (lim == "d") AST::parse_files(sp, cb, l);
                else AST::parse_files(sp, cb, l, std::stoi(lim));
            }
            return std::to_string(k);
        }
        if (o == "addast") {
            Logger log = [this](WarningCode w, char const *m) {
                static char const *N[] = {"OperationUndefined", "RuntimeError", "AtomUndefined", "FileIncluded", "VariableUnbounded", "GlobalVariable", "Other"};
                msgs.push_back(S(N[static_cast<int>(w)]) + "|" + m);
            };
            S const &mode = c[1];
            AST::with_builder(*ctl, [&](AST::ProgramBuilder &b) {
                if (mode == "direct") { AST::parse_string(c[2].c_str(), [&b](AST::Node const &n) { b.add(n); }, log); return; }
                std::vector<AST::Node> nodes;
                auto cb = [&nodes](AST::Node n) { nodes.push_back(std::move(n)); };
                if (mode == "files") {
                    auto f = split(c[2], ',');
                    std::vector<char const *> v;
                    for (auto &x : f) v.push_back(x.c_str());
                    AST::parse_files(StringSpan{v.data(), v.size()}, cb, log);
                }
                else AST::parse_string(c[2].c_str(), cb, log);
                if (mode == "copy") for (auto &n : nodes) n = n.copy();
                else if (mode == "deep") for (auto &n : nodes) n = n.deep_copy();
                else if (mode == "trans") {
                    struct T {
                        AST::Node operator()(AST::Node const &n) {
                            if (n.type() == AST::Type::Variable) return n.copy();
                            if (n.type() == AST::Type::Function) return n.transform_ast(*this).deep_copy();
                            if (n.type() == AST::Type::Literal) return n.transform_ast(*this).copy();
                            return n.transform_ast(*this);
                        }
                    };
                    for (auto &n : nodes) n = T{}(n);
                }
                else if (mode == "unpool") {
                    std::vector<AST::Node> r;
                    for (auto &n : nodes) for (auto &m : n.unpool()) r.push_back(m);
                    nodes = r;
                }
                else if (mode == "print") {
                    S t;
                    for (auto &n : nodes) t += n.to_string() + "\n";
                    nodes.clear();
                    AST::parse_string(t.c_str(), cb, log);
                }
                else if (mode == "twice") for (auto &n : nodes) b.add(n);
                for (auto &n : nodes) b.add(n);
            });
            return "ok";
        }
        if (o == "fun") {
            std::vector<Symbol> v;
            for (auto &x : split(c.size() > 3 ? c[3] : S(), '\3')) v.push_back(pt(x));
            funs[c[1]] = {c[2], v};
            return "ok";
        }
        if (o == "funlog") { S r = join(flog, "\1"); flog.clear(); return r; }
        if (o == "ground" || o == "groundx") {
            std::vector<SymbolVector> args; SV names;
            auto ps = split(c[1], ';');
            std::vector<Symbol> syms;
            for (auto &p : ps) { auto s = pt(p); names.push_back(s.name()); args.emplace_back(s.arguments().begin(), s.arguments().end()); }
            std::vector<Part> parts;
            for (size_t i = 0; i < ps.size(); ++i) parts.emplace_back(names[i].c_str(), SymbolSpan{args[i]});
            if (o == "ground") { ctl->ground(parts); return "ok"; }
            ctl->ground(parts, [this](Location loc, char const *name, SymbolSpan args, SymbolSpanCallback cb) {
                SV as;
                for (auto &x : args) as.push_back(x.to_string());
                flog.push_back(S(name) + " " + join(as, "\3"));
                if (loc.begin_line() == 0 || !*loc.begin_file()) flog.push_back("bad location");
                auto it = funs.find(name);
                if (it == funs.end()) throw std::runtime_error("lookup " + S(name));
                auto &v = it->second.second;
                auto &s = it->second.first;
                if (s == "one" || s == "list") cb({v.data(), v.size()});
                else if (s == "args") cb(args);
                else if (s == "split") for (auto &x : v) cb({&x, 1});
                else if (s == "init") for (auto &x : v) cb({x});
                else if (s == "none") ;
                else if (s == "late") { cb({v.data(), v.size()}); throw std::runtime_error("late"); }
                else throw std::runtime_error("lookup " + S(name));
            });
            return "ok";
        }
        if (o == "ext") { ctl->assign_external(pt(c[1]), truth(c[2])); return "ok"; }
        if (o == "extl") { ctl->assign_external(lit(c[1]), truth(c[2])); return "ok"; }
        if (o == "extn") { ctl->assign_external(-lit(c[1]), truth(c[2])); return "ok"; }
        if (o == "rel") { ctl->release_external(pt(c[1])); return "ok"; }
        if (o == "reln") { ctl->release_external(-lit(c[1])); return "ok"; }
        if (o == "rell") { ctl->release_external(lit(c[1])); return "ok"; }
        if (o == "const") return ctl->has_const(c[1].c_str()) ? ctl->get_const(c[1].c_str()).to_string() : S("-");
        if (o == "conflict") return b(ctl->is_conflicting());
        if (o == "cleanup") { ctl->cleanup(); return "ok"; }
        if (o == "encl") { ctl->enable_cleanup(c[1] == "1"); return b(ctl->enable_cleanup()); }
        if (o == "enum") { ctl->enable_enumeration_assumption(c[1] == "1"); return b(ctl->enable_enumeration_assumption()); }
        if (o == "size") return str(ctl->symbolic_atoms().length());
        if (o == "atoms") { SV r; for (auto a : ctl->symbolic_atoms()) r.push_back(atom(a)); return join(r, " "); }
        if (o == "atoms2") {
            // the same by post-increment, with a copied iterator and through lookups
            SV r;
            auto sa = ctl->symbolic_atoms();
            auto it = sa.begin();
            while (it) {
                auto jt = it;
                auto old = it++;
                if (old != jt || !(old == jt) || (*old).symbol() != (*jt).symbol() || it == jt) throw Err{"iterator"};
                if (atom(*old) != atom(sa[jt->symbol()])) throw Err{"operator[]"};
                r.push_back(atom(*old));
            }
            if (!(it == sa.end()) || it != sa.end()) throw Err{"end"};
            return join(r, " ");
        }
        if (o == "bysig") {
            SV r;
            auto sa = ctl->symbolic_atoms();
            Signature sig = c[3] == "_" ? Signature(c[1].c_str(), std::stoi(c[2])) : Signature(c[1].c_str(), std::stoi(c[2]), c[3] == "1");
            for (auto it = sa.begin(sig), ie = sa.end(); it != ie; ++it) r.push_back(atom(*it));
            return join(r, " ");
        }
        if (o == "sigs") { SV r; for (auto s : ctl->symbolic_atoms().signatures()) r.push_back(S(s.name()) + "/" + str(s.arity()) + "/" + b(s.positive())); return join(r, " "); }
        if (o == "lookup") { auto sa = ctl->symbolic_atoms(); auto it = sa.find(pt(c[1])); return it == sa.end() ? S("-") : atom(*it); }
        if (o == "match") { if (n > 4) { auto m = ctl->symbolic_atoms()[pt(c[1])]; return b(m.match(c[2].c_str(), std::stoi(c[3])) && m.symbol().is_positive() == (c[4] == "1")); } return b(ctl->symbolic_atoms()[pt(c[1])].match(c[2].c_str(), std::stoi(c[3]))); }
        if (o == "level") { level = c[1]; probe = split(n > 2 ? c[2] : "", ' '); return "ok"; }
        if (o == "solve") return solve(c[1], n > 2 ? c[2] : "", n > 3 ? c[3] : "");
        if (o == "hstart") { h.reset(new SolveHandle(start(n > 2 ? c[2] : "", nullptr, c[1].find('A') != S::npos, c[1].find('y') != S::npos))); return "ok"; }
        if (o == "hresume") { h->resume(); return "ok"; }
        if (o == "hmodel") { auto const &m = h->model(); return m ? "M" + model(m) : S("-"); }
        if (o == "hnext") { auto const &m = h->next(); return m ? "M" + model(m) : S("-"); }
        if (o == "hlast") { auto const *m = h->last(); return m ? "M" + model(*m) : S("-"); }
        if (o == "hwait") { if (n < 2 || c[1] == "_") { h->wait(); return "1"; } return b(h->wait(std::stod(c[1]))); }
        if (o == "hget") return res(h->get());
        if (o == "hcore") return joinv(h->core());
        if (o == "hcancel") { h->cancel(); return "ok"; }
        if (o == "hclose") { std::unique_ptr<SolveHandle> x; x.swap(h); x->close(); return "ok"; }
        if (o == "bound") { g_bound[c[1]] = std::stoi(c[2]); return "ok"; }
        if (o == "hdrop") { h.reset(); return "ok"; }
        if (o == "hmove") { std::unique_ptr<SolveHandle> x(new SolveHandle(std::move(*h))); h = std::move(x); return "ok"; }
        if (o == "cget") { auto x = conf(c[1]); if (x.is_value()) return x.is_assigned() ? "=" + x.value() : S("-"); return "node"; }
        if (o == "cset") { conf(c[1]) = c[2].c_str(); return "ok"; }
        if (o == "ckeys") { auto x = conf(n > 1 ? c[1] : ""); if (!x.is_map()) return "-"; SV r; for (auto k : x.keys()) r.push_back(k); return join(r, " "); }
        if (o == "clen") { auto x = conf(n > 1 ? c[1] : ""); S r = x.is_array() ? str(x.size()) : S("0"); if (x.is_array()) { size_t i = 0; for (auto y : x) ++i; if (i != x.size() || x.empty() != (i == 0)) r += "!" + str(i); } return r + b(x.is_array()); }
        if (o == "cdump") { SV out; cdump(conf(n > 1 ? c[1] : ""), n > 1 ? c[1] : "", n > 2 && c[2] == "1", out); return join(out, "\x01"); }
        if (o == "cdesc") return conf(c[1]).decription();
        if (o == "ustats") { us.assign(c.begin() + 1, c.end()); ulog.clear(); return "ok"; }
        if (o == "ulog") { S r = join(ulog, "\x01"); ulog.clear(); return r; }
        if (o == "stats") { auto s = ctl->statistics(); Statistics x = s; std::vector<Statistics> st{s}; for (auto &p : split(n > 1 ? c[1] : "", '.')) st.push_back(isdigit(p[0]) ? st.back()[static_cast<size_t>(std::stoi(p))] : st.back()[p.c_str()]); return tree(st.back()); }
        if (o == "be") return be(c[1]);
        if (o == "theory2") return theory2(ctl->theory_atoms());
        if (o == "theory") return theory(ctl->theory_atoms());
        if (o == "obs") { obs.log.clear(); obs.skip.clear(); if (n > 2) for (auto &x : split(c[2], ',')) obs.skip.insert(x); if (n < 2 || c[1] == "_") ctl->register_observer(obs); else ctl->register_observer(obs, c[1] == "1"); return "ok"; }
        if (o == "prop") {
            Prop *p;
            bool d = c[3].find('d') != S::npos;
            if (d) { p = new Prop(); props.emplace_back(p); } else { auto q = new PropOnly(); props.emplace_back(q); p = &q->p; }
            p->ini = split(c[1], ';'); p->rules = split(c[2], ';'); p->flags = c[3]; p->log = &plog; p->n = static_cast<int>(props.size()) - 1;
            if (d) ctl->register_propagator(*p, false); else ctl->register_propagator(*props.back(), false);
            return "ok";
        }
        if (o == "proplog") { S r = join(plog, "\x01"); plog.clear(); return r; }
        if (o == "obslog") { S r = join(obs.log, "\x01"); obs.log.clear(); return r; }
        throw Err{"unknown command " + o};
    }
};
int main() {
    I i;
    S line;
    std::ios::sync_with_stdio(false);
    while (std::getline(std::cin, line)) {
        SV c; S cur;
        for (char x : line) { if (x == '\t') { c.push_back(cur); cur.clear(); } else cur += x == '\x02' ? '\n' : x; }
        c.push_back(cur);
        S r;
        try { r = i.run(c); }
        catch (Err const &e) { r = "E:" + e.m; }
        catch (std::bad_alloc const &e) { r = "E:MemoryError:" + S(e.what()); }
        catch (std::logic_error const &e) { r = S("E:LogicError:") + e.what(); }
        catch (std::exception const &e) { r = S("E:RuntimeError:") + e.what(); }
        for (auto &x : r) if (x == '\n') x = '\x02';
        std::cout << r << "\n" << std::flush;
    }
    i.reset();
}
