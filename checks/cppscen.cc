// Scenarios over every operation of clingo.hh, run with failing library calls (fault), raising
// callbacks (exc) or both while counting resources (balance).
#include <clingo.hh>
#include <algorithm>
#include <iostream>
#include <memory>
#include "vp.hh"
using namespace Clingo;
extern "C" {
void vpi_reset(void) __attribute__((weak));
void vpi_skip(char const *) __attribute__((weak));
void vpi_reset_balance(void) __attribute__((weak));
void vpi_arm(long k, int code, char const *msg, char const *name) __attribute__((weak));
long vpi_calls(void) __attribute__((weak));
long vpi_hits(void) __attribute__((weak));
char const *vpi_failed(void) __attribute__((weak));
long vpi_balance(int kind) __attribute__((weak));
char const *vpi_bad(void) __attribute__((weak));
}
struct Stop {};
struct User { int id; };
struct Derived : std::runtime_error { int id; Derived(int i) : std::runtime_error("derived"), id(i) {} };
struct Kind { int code; char const *msg; };
static Kind const KINDS[] = {{4, "unknown y"}, {1, "injected failure"}, {2, "logic x"}, {3, "no mem"}, {1, nullptr}, {2, nullptr}, {3, nullptr}};
enum Mode { Record, FaultM, ExcM, BalF, BalE };

struct R {
    Mode mode = Record;
    std::string scen;
    R *rec = nullptr;
    // record
    std::vector<std::string> names, base;
    std::vector<char> isq;
    std::vector<long> calls, cbs;
    // target
    int i = -1, target = -1;
    long k = 0, j = 0, ncb = 0;
    int kind = 0, exc = 0;
    bool warm = false, later = false, active = false, raised = false, failed = false, chain = false;
    std::vector<std::function<std::string()>> probes;

    template <class F> void op(char const *name, F f) { run(name, [&]() -> std::string { f(); return ""; }, false); }
    template <class F> void q(char const *name, F f) { run(name, f, true); }
    template <class F> void after(F f) { if (warm) probeval.push_back(f()); else probes.push_back(f); }
    void cb() {
        if (mode == Record) { ++ncb; return; }
        if (!active) return;
        ++ncb;
        if (ncb == j || (later && ncb > j)) {
            int e = raised ? 100 : 7;
            raised = true;
            switch (exc) {
                case 0: throw User{e};
                case 1: throw Derived(e);
                case 2: throw std::bad_alloc();
                case 3: throw e;
                default: throw std::logic_error(e == 7 ? "first" : "later");
            }
        }
    }
    template <class F> std::string classify(F f) {
        try { f(); return "ok"; }
        catch (Stop const &) { throw; }
        catch (User const &e) { return "user " + vp::str(e.id); }
        catch (Derived const &e) { return "derived " + vp::str(e.id); }
        catch (int e) { return "int " + vp::str(e); }
        catch (std::bad_alloc const &) { return "bad_alloc"; }
        catch (std::logic_error const &e) { return std::string("logic_error ") + e.what(); }
        catch (std::runtime_error const &e) { return std::string("runtime_error ") + e.what(); }
        catch (std::exception const &e) { return std::string("exception ") + e.what(); }
        catch (...) { return "something else"; }
    }
    template <class F> void run(char const *name, F f, bool query) {
        ++i;
        if (mode == Record) {
            ncb = 0;
            vpi_reset();
            std::string x = f();
            names.push_back(name); base.push_back(x); isq.push_back(query); calls.push_back(vpi_calls()); cbs.push_back(ncb);
            return;
        }
        if (i != target) {
            vpi_reset();
            if (!failed) f();
            else if (chain && i > target && i < static_cast<int>(rec->cbs.size()) && rec->cbs[i] > 0) {
                // an earlier operation failed with another exception: this one has to report its own
                active = true; raised = false; ncb = 0; j = 1; exc = exc == 4 ? 0 : 4;
                std::string got = classify(f);
                active = false;
                ++vp::st().trans;
                if (raised && got != (exc == 4 ? "logic_error first" : "user 7") && !(std::string(name) == "async" && got != "ok"))
                    vp::fail("c++: " + scen + ": " + name + ": wrong exception after an earlier one", got);
            }
            else classify(f);
            return;
        }
        failed = true;
        std::string what = scen + ": operation " + vp::str(i) + " (" + name + ")";
        if (mode == ExcM || mode == BalE) {
            static char const *E[] = {"user 7", "derived 7", "bad_alloc", "int 7", "logic_error first"};
            vp::journal(what + ", callback invocation " + vp::str(j) + " raises " + E[exc] + (later ? ", later ones too" : ""));
            ++vp::st().execs;
            active = true; ncb = 0;
            std::string got = classify(f);
            active = false;
            std::string key = "c++: " + scen + ": " + name;
            if (mode == ExcM) {
                if (!raised) vp::fail(key + " is not deterministic", "callback invocation not made");
                else if (got == "ok") vp::fail(key + ": exception is swallowed", E[exc]);
                else if (got != E[exc] && !(std::string(name) == "async" && got != "ok")) vp::fail(key + ": another exception arrives", got);
                if (chain) return;
                for (size_t p = 0; p < probes.size(); ++p) vp::eq(probes[p](), rec->probeval[p], key + ": control changed by an exception");
                std::string again = classify(f);
                if (again == E[exc]) vp::fail(key + ": exception is reported again", again);
            }
            throw Stop{};
        }
        std::vector<long> ks;
        if (query) for (long x = 1; x <= rec->calls[i]; ++x) ks.push_back(x);
        else ks.push_back(k);
        for (long x : ks)
            for (int kd = 0; kd < (query ? 7 : 1); ++kd) {
                Kind const &K = KINDS[query ? kd : kind];
                vp::journal(what + ", call " + vp::str(x) + ", error " + vp::str(K.code) + " " + (K.msg ? K.msg : "without message"));
                ++vp::st().execs;
                vpi_arm(x, K.code, K.msg, nullptr);
                std::string got = classify(f);
                long hits = vpi_hits();
                std::string fn = vpi_failed();
                vpi_reset();
                if (mode == BalF) continue;
                std::string key = "c++: " + std::string(name) + ": failure of " + fn;
                if (!hits) { vp::fail("c++: " + std::string(name) + " is not deterministic", "call not made"); continue; }
                std::string want = K.code == 3 ? "bad_alloc" : K.code == 2 ? "logic_error" : "runtime_error";
                if (got == "ok") vp::fail(key + " is not reported", got);
                else if (got.compare(0, want.size(), want) != 0) vp::fail(key + " raises the wrong exception", got + " instead of " + want);
                else if (K.msg && K.code != 3 && got.find(K.msg) == std::string::npos) vp::fail(key + " loses the message", got);
                if (query) {
                    std::string b;
                    std::string again = classify([&] { b = f(); });
                    if (again != "ok") vp::fail(key + " breaks the object", again);
                    else if (b != rec->base[i]) vp::fail(key + " changes the object", b + " before " + rec->base[i]);
                }
            }
        if (!query) throw Stop{};
    }
    std::vector<std::string> probeval;
};
// ---------------------------------------------------------------- scenarios
static std::string lp_file, aspif_file;
static void wr(std::string &n, char const *ext, char const *txt) {
    n = "scen" + vp::str(getpid()) + ext;
    FILE *f = fopen(n.c_str(), "w"); fputs(txt, f); fclose(f);
}
template <class C> static std::string joins(C const &c) {
    std::vector<std::string> v;
    for (auto const &x : c) v.push_back(vp::str(x));
    std::sort(v.begin(), v.end());
    std::string r;
    for (auto &x : v) r += x + " ";
    return r;
}
static char const *PROG =
    "#theory t { u { - : 1, unary; + : 1, binary, left }; &p/1 : u, {<=, =}, u, any; &q/0 : u, any }.\n"
    "{a; b; x(1..2)}. c :- a, not b. d :- 1 <= #count { X : x(X) } <= 1. #external e. #minimize { 1@2 : a; 2@1 : b }.\n"
    "#project a. #show a/0. #show t(X) : x(X). #heuristic a : b. [1@2, level] #edge (1,2) : a. #edge (2,1) : b.\n"
    "&p(1) { 1+X, f(a,-1) : x(X), a } <= (1,[2],{3}). &q { \"s\" }.\n";

static void symbols(R &r) {
    r.q("Function", [&] { return Function("f", {Number(1), String("x"), Id("a", false)}, false).to_string(); });
    r.q("Id", [&] { return Id("a").to_string(); });
    Symbol f = Function("f", {Number(1), String("x")}, false);
    r.q("args", [&] { return joins(f.arguments()); });
    r.q("name", [&] { return std::string(f.name()); });
    r.q("sign", [&] { return vp::str(f.is_positive()) + vp::str(f.is_negative()); });
    r.q("num", [&] { return vp::str(Number(3).number()); });
    r.q("str", [&] { return std::string(String("abc").string()); });
    r.q("to_string", [&] { return f.to_string(); });
    r.q("match", [&] { return vp::str(f.match("f", 2)); });
    r.q("parse_term", [&] { return parse_term("f(1+2)").to_string(); });
    r.q("parse_term logger", [&] { return parse_term("f(1+2)", [](WarningCode, char const *) {}, 5).to_string(); });
    r.q("Signature", [&] { Signature s("f", 1, false); return std::string(s.name()) + vp::str(s.arity()) + vp::str(s.positive()); });
    r.q("add_string", [&] { return std::string(add_string("abc")); });
}
static void control(R &r) {
    r.op("Control()", [&] { Control c; });
    r.op("Control(args)", [&] { Control c({"-c", "k=3", "0"}, [](WarningCode, char const *) {}, 5); });
    Control ctl{{"-c", "k=3", "0"}};
    r.op("add", [&] { ctl.add("base", {}, "{a; b; c(1..2)}. #external e(1..2). x(k). :- e(1), a. #show a/0. #minimize{1@2:a}. #project a."); });
    r.op("add params", [&] { ctl.add("p", {"n"}, "q(n). r(n) :- a."); });
    r.op("load", [&] { ctl.load(lp_file.c_str()); });
    r.op("ground", [&] { ctl.ground({{"base", {}}}); });
    r.op("ground parts", [&] { Symbol a = Number(1), b = Number(2); ctl.ground({{"p", SymbolSpan{&a, 1}}, {"p", SymbolSpan{&b, 1}}}); });
    r.q("has_const", [&] { return vp::str(ctl.has_const("k")) + vp::str(ctl.has_const("zz")); });
    r.q("get_const", [&] { return ctl.get_const("k").to_string(); });
    r.q("is_conflicting", [&] { return vp::str(ctl.is_conflicting()); });
    Symbol e1 = Function("e", {Number(1)}), e2 = Function("e", {Number(2)}), un = Id("zz");
    for (auto v : {TruthValue::True, TruthValue::False, TruthValue::Free}) {
        r.op("assign_external", [&] { ctl.assign_external(e1, v); });
        r.op("assign_external unknown", [&] { ctl.assign_external(un, v); });
    }
    literal_t lit = 1;
    r.op("literal", [&] { lit = ctl.symbolic_atoms()[e2].literal(); });
    r.op("assign_external literal", [&] { ctl.assign_external(lit, TruthValue::True); });
    r.op("release_external", [&] { ctl.release_external(e1); });
    r.op("release_external literal", [&] { ctl.release_external(lit); });
    r.op("cleanup", [&] { ctl.cleanup(); });
    r.op("enable_cleanup", [&] { bool b = ctl.enable_cleanup(); ctl.enable_cleanup(!b); ctl.enable_cleanup(b); });
    r.op("enable_enumeration_assumption", [&] { bool b = ctl.enable_enumeration_assumption(); ctl.enable_enumeration_assumption(!b); ctl.enable_enumeration_assumption(b); });
    r.op("interrupt", [&] { ctl.interrupt(); });
    r.q("symbolic_atoms", [&] { return vp::str(ctl.symbolic_atoms().length()); });
    auto sa = ctl.symbolic_atoms();
    r.q("iterate", [&] { std::string s; for (auto &&x : sa) s += x.symbol().to_string() + vp::str(x.literal()) + vp::str(x.is_fact()) + vp::str(x.is_external()) + vp::str(x.match("a", 0)) + " "; return s; });
    r.q("by signature", [&] { std::string s; for (auto it = sa.begin(Signature("c", 1)); it; ++it) s += it->symbol().to_string(); return s; });
    r.q("signatures", [&] { std::string s; for (auto &x : sa.signatures()) s += std::string(x.name()) + vp::str(x.arity()); return s; });
    r.q("find", [&] { return vp::str(sa.find(Id("a")) != sa.end()) + vp::str(sa.find(un) != sa.end()); });
}
static void context(R &r) {
    Control ctl;
    r.op("add", [&] { ctl.add("base", {}, "a(@f(1)). b(@g(X,2)) :- a(X). c(@h()). d :- not c(1)."); });
    r.op("ground context", [&] {
        ctl.ground({{"base", {}}}, [&](Location loc, char const *name, SymbolSpan args, SymbolSpanCallback cb) {
            r.cb();
            std::string n = name;
            if (n == "f") { cb({Number(args[0].number()), Number(5)}); }
            else if (n == "g") { cb({Function("t", args)}); }
        });
    });
    r.op("add more", [&] { ctl.add("p", {}, "p(@f(1))."); ctl.add("q", {"n"}, "q(@f(n))."); });
    for (int n = 0; n < 2; ++n) r.op("ground part", [&] {
        Symbol num = Number(3);
        ctl.ground({{n ? "q" : "p", n ? SymbolSpan{&num, 1} : SymbolSpan{}}}, [&](Location, char const *, SymbolSpan args, SymbolSpanCallback cb) {
            r.cb();
            cb({Number(args[0].number())});
        });
    });
    r.q("atoms", [&] { return vp::str(ctl.symbolic_atoms().length()); });
}
static std::string mod(Model const &m) {
    std::string s;
    for (auto t : {ShowType::Shown, ShowType::Atoms, ShowType::Terms, ShowType::Theory}) s += joins(m.symbols(t)) + ";";
    s += joins(m.symbols(ShowType::Atoms | ShowType::Complement)) + joins(m.cost()) + joins(m.priorities()) + vp::str(m.number()) + vp::str(m.optimality_proven()) + vp::str(m.thread_id()) + vp::str(int(m.type()));
    s += vp::str(m.is_true(1)) + vp::str(m.is_true(-1)) + vp::str(int(m.is_consequence(1))) + vp::str(m.contains(Id("a"))) + vp::str(m.contains(Id("zz")));
    std::ostringstream o; o << m; return s + o.str();
}
struct H : SolveEventHandler {
    std::function<bool(Model &)> f;
    explicit H(std::function<bool(Model &)> f) : f(std::move(f)) {}
    bool on_model(Model &m) override { return f(m); }
    void on_unsat(Span<int64_t>) override {}
    void on_statistics(UserStatistics, UserStatistics) override {}
    void on_finish(SolveResult) override {}
};
static void solve(R &r) {
    Symbol a = Id("a"), un = Id("zz");
    Control ctl{{"0"}};
    ctl.configuration()["solve"]["opt_mode"] = "ignore";
    r.op("add", [&] { ctl.add("base", {}, "{a; b}. #show a/0. #show t : b. #minimize{1@2:a; 1@1:b}."); });
    r.op("ground", [&] { ctl.ground({{"base", {}}}); });
    r.after([&] { std::string s; int n = 0; for (auto &m : ctl.solve()) { s += joins(m.symbols(ShowType::Atoms)) + "/"; ++n; } return s + vp::str(n); });
    r.op("solve get", [&] { ctl.solve(LiteralSpan{}, nullptr, false, false).get(); });
    r.op("solve on_model", [&] { H h([&](Model &m) { r.cb(); mod(m); return true; }); ctl.solve(LiteralSpan{}, &h, false, false).get(); });
    r.op("model clause", [&] { H h([&](Model &m) { r.cb(); m.context().add_clause({SymbolicLiteral(a, true), SymbolicLiteral(un, false)}); m.context().add_clause(LiteralSpan{1, -1}); return true; }); ctl.solve(LiteralSpan{}, &h, false, false).get(); });
    r.op("model extend", [&] { H h([&](Model &m) { r.cb(); m.extend({un}); m.context().symbolic_atoms().length(); return true; }); ctl.solve(LiteralSpan{}, &h, false, false).get(); });
    r.op("assumptions", [&] { ctl.solve(SymbolicLiteralSpan{SymbolicLiteral(a, true), SymbolicLiteral(un, false)}, nullptr, false, false).get(); });
    r.op("core", [&] { auto h = ctl.solve(LiteralSpan{1, -1, 2}, nullptr, false, false); h.get(); h.core(); });
    r.op("last", [&] { auto h = ctl.solve(LiteralSpan{}, nullptr, false, false); h.get(); auto *m = h.last(); if (m) mod(*m); });
    r.op("yield", [&] { auto h = ctl.solve(); for (auto &m : h) mod(m); h.get(); });
    r.op("yield on_model", [&] { H e([&](Model &) { r.cb(); return true; }); auto h = ctl.solve(LiteralSpan{}, &e); for (auto &m : h) mod(m); h.get(); });
    r.op("yield next", [&] { H e([&](Model &) { r.cb(); return true; }); auto h = ctl.solve(LiteralSpan{}, &e); while (auto &m = h.next()) mod(m); h.close(); });
    r.op("yield manual", [&] { auto h = ctl.solve(LiteralSpan{}, nullptr, true, true); h.resume(); h.wait(); h.model(); h.resume(); h.wait(1); h.model(); h.cancel(); h.get(); });
    r.op("async", [&] { H e([&](Model &) { r.cb(); return true; }); auto h = ctl.solve(LiteralSpan{}, &e, true, false); h.wait(); h.get(); });
    r.op("partial", [&] { H e([&](Model &) { r.cb(); return true; }); auto h = ctl.solve(LiteralSpan{}, &e); h.resume(); h.model(); });
    r.op("moved", [&] { H e([&](Model &) { r.cb(); return true; }); auto h = ctl.solve(LiteralSpan{}, &e); SolveHandle g; g = std::move(h); h = std::move(g); SolveHandle i(std::move(h)); i.next(); i.close(); });
}
static std::string cwalk(Configuration c, int depth) {
    std::string s;
    s += vp::str(c.is_value()) + vp::str(c.is_array()) + vp::str(c.is_map());
    if (c.is_value()) s += vp::str(c.is_assigned()) + (c.is_assigned() ? c.value() : "");
    if (c.is_map() && depth > 0) for (auto k : c.keys()) s += std::string(" ") + k + "=" + cwalk(c[k], depth - 1);
    if (c.is_array() && depth > 0) for (auto x : c) s += cwalk(x, 0);
    return s;
}
static void conf(R &r) {
    Control ctl{{"0"}};
    r.q("configuration", [&] { return vp::str(ctl.configuration().is_map()); });
    auto c = ctl.configuration();
    r.q("walk", [&] { return cwalk(c["solve"], 1); });
    r.q("walk solver", [&] { return vp::str(c["solver"].size()) + vp::str(c["solver"].empty()) + vp::str(c["solver"][size_t(0)].is_map()); });
    r.q("get", [&] { return std::string(c["solve"]["models"]); });
    r.op("set", [&] { c["solve"]["models"] = "2"; });
    r.q("description", [&] { return std::string(c["solve"].decription()); });
}
static std::string swalk(Statistics s) {
    switch (s.type()) {
        case StatisticsType::Value: return "v";
        case StatisticsType::Array: { std::string r = "[" + vp::str(s.size()); for (auto x : s) r += swalk(x); return r + "]"; }
        case StatisticsType::Map: { std::string r = "{" + vp::str(s.size()); for (auto k : s.keys()) r += std::string(k) + swalk(s[k]); return r + "}"; }
        default: return "e";
    }
}
static void stats(R &r) {
    Control ctl{{"0", "--stats"}};
    ctl.add("base", {}, "{a;b}.");
    ctl.ground({{"base", {}}});
    struct S : H {
        S() : H([](Model &) { return true; }) {}
        void on_statistics(UserStatistics s, UserStatistics) override {
            auto x = s.add_subkey("X", StatisticsType::Map);
            x.add_subkey("a", StatisticsType::Value).set_value(1);
            auto b = x.add_subkey("b", StatisticsType::Array);
            b.push(StatisticsType::Value).set_value(2);
            b.push(StatisticsType::Map).add_subkey("c", StatisticsType::Value).set_value(3);
        }
    } h;
    ctl.solve(LiteralSpan{}, &h, false, false).get();
    r.op("statistics", [&] { ctl.statistics(); });
    auto s = ctl.statistics();
    r.q("walk", [&] { return swalk(s["user_step"]) + swalk(s["summary"]); });
    r.q("value", [&] { return vp::str(double(s["user_step"]["X"]["a"])) + vp::str(s["user_step"]["X"]["b"][size_t(0)].value()); });
    r.q("has_subkey", [&] { return vp::str(s.has_subkey("user_step")) + vp::str(s.has_subkey("zz")); });
}
struct Obs : GroundProgramObserver {
    R &r;
    explicit Obs(R &r) : r(r) {}
    void init_program(bool) override { r.cb(); }
    void begin_step() override { r.cb(); }
    void end_step() override { r.cb(); }
    void rule(bool, AtomSpan, LiteralSpan) override { r.cb(); }
    void weight_rule(bool, AtomSpan, weight_t, WeightedLiteralSpan) override { r.cb(); }
    void minimize(weight_t, WeightedLiteralSpan) override { r.cb(); }
    void project(AtomSpan) override { r.cb(); }
    void output_atom(Symbol, atom_t) override { r.cb(); }
    void output_term(Symbol, LiteralSpan) override { r.cb(); }
    void external(atom_t, ExternalType) override { r.cb(); }
    void assume(LiteralSpan) override { r.cb(); }
    void heuristic(atom_t, HeuristicType, int, unsigned, LiteralSpan) override { r.cb(); }
    void acyc_edge(int, int, LiteralSpan) override { r.cb(); }
    void theory_term_number(id_t, int) override { r.cb(); }
    void theory_term_string(id_t, char const *) override { r.cb(); }
    void theory_term_compound(id_t, int, IdSpan) override { r.cb(); }
    void theory_element(id_t, IdSpan, LiteralSpan) override { r.cb(); }
    void theory_atom(id_t, id_t, IdSpan) override { r.cb(); }
    void theory_atom_with_guard(id_t, id_t, IdSpan, id_t, id_t) override { r.cb(); }
};
static void bops(R &r, Control &ctl) {
    std::unique_ptr<Backend> be;
    r.op("backend", [&] { be.reset(new Backend(ctl.backend())); });
    if (!be) return;
    atom_t a = 1, b = 2;
    r.op("add_atom symbol", [&] { a = be->add_atom(Id("a")); });
    r.op("add_atom", [&] { b = be->add_atom(); });
    r.op("rule", [&] { be->rule(true, {a}, {literal_t(b)}); });
    r.op("weight_rule", [&] { be->weight_rule(false, {a}, 1, {{literal_t(b), 2}}); });
    r.op("minimize", [&] { be->minimize(1, {{literal_t(a), 2}}); });
    r.op("project", [&] { be->project({a}); });
    r.op("external", [&] { be->external(b, ExternalType::True); });
    r.op("assume", [&] { be->assume({literal_t(a)}); });
    r.op("heuristic", [&] { be->heuristic(a, HeuristicType::Level, 1, 2, {literal_t(b)}); });
    r.op("acyc_edge", [&] { be->acyc_edge(0, 1, {literal_t(a)}); });
    id_t n = 0, s = 0, f = 0, t = 0, e = 0;
    r.op("number", [&] { n = be->add_theory_term_number(1); });
    r.op("string", [&] { s = be->add_theory_term_string("x"); });
    r.op("function", [&] { f = be->add_theory_term_function("f", {n, s}); });
    r.op("sequence", [&] { t = be->add_theory_term_sequence(TheorySequenceType::Tuple, {n}); });
    r.op("symbol", [&] { be->add_theory_term_symbol(Function("g", {Number(1)})); });
    r.op("element", [&] { e = be->add_theory_element({t}, {literal_t(a)}); });
    r.op("theory_atom", [&] { be->theory_atom(f, {e}); });
    r.op("theory_atom guard", [&] { be->theory_atom(f, {e}, "=", n); });
    r.op("theory_atom 0", [&] { be->theory_atom(0, f, {e}); });
    r.op("theory_atom guard 0", [&] { be->theory_atom(0, f, {e}, "=", n); });
    r.op("close", [&] { be->close(); });
    be.reset();
    r.op("solve", [&] { ctl.solve(LiteralSpan{}, nullptr, false, false).get(); });
    r.op("assign_external", [&] { ctl.assign_external(literal_t(b), TruthValue::False); });
    r.op("release_external", [&] { ctl.release_external(literal_t(b)); });
    r.op("with_backend", [&] { ctl.with_backend([&](Backend &x) { x.rule(false, {x.add_atom(Id("z"))}, {}); }); });
    r.op("solve 2", [&] { ctl.solve(LiteralSpan{}, nullptr, false, false).get(); });
}
static void backend(R &r) { Control ctl{{"0"}}; bops(r, ctl); }
static void observer_backend(R &r) { Control ctl{{"0"}}; Obs o(r); ctl.register_observer(o); bops(r, ctl); }
static void observer(R &r) {
    Control ctl{{"0"}};
    Obs o(r);
    r.op("register_observer", [&] { ctl.register_observer(o); });
    r.op("add", [&] { ctl.add("base", {}, PROG); });
    r.op("ground", [&] { ctl.ground({{"base", {}}}); });
    r.op("solve", [&] { ctl.solve(LiteralSpan{1}, nullptr, false, false).get(); });
    r.op("assign_external", [&] { ctl.assign_external(Id("e"), TruthValue::True); });
    r.op("solve 2", [&] { ctl.solve(LiteralSpan{}, nullptr, false, false).get(); });
}
static std::string tterm(TheoryTerm t) {
    std::string s = vp::str(int(t.type())) + t.to_string();
    if (t.type() == TheoryTermType::Number) return s + vp::str(t.number());
    if (t.type() == TheoryTermType::Symbol) return s + t.name();
    if (t.type() == TheoryTermType::Function) s += t.name();
    for (auto x : t.arguments()) s += tterm(x);
    return s;
}
static void theory(R &r) {
    Control ctl;
    ctl.add("base", {}, PROG);
    r.op("ground", [&] { ctl.ground({{"base", {}}}); });
    r.q("theory_atoms", [&] { return vp::str(ctl.theory_atoms().size()); });
    auto ta = ctl.theory_atoms();
    r.q("atoms", [&] { std::string s; for (auto a : ta) { s += tterm(a.term()) + vp::str(a.literal() != 0) + vp::str(a.has_guard()); if (a.has_guard()) s += a.guard().first + tterm(a.guard().second); } return s; });
    r.q("elements", [&] { std::string s; for (auto a : ta) for (auto e : a.elements()) { s += e.to_string(); for (auto t : e.tuple()) s += tterm(t); for (auto l : e.condition()) s += vp::str(l); s += vp::str(e.condition_id() != 0); } return s; });
    r.q("to_string", [&] { std::string s; for (auto a : ta) s += a.to_string(); return s; });
}
struct Prop : Heuristic {
    R &r;
    std::vector<literal_t> l;
    int n = 0;
    explicit Prop(R &r) : r(r) {}
    void ass(Assignment a) {
        std::string s;
        for (auto x : l) { s += vp::str(int(a.truth_value(x))) + vp::str(a.is_true(x)) + vp::str(a.is_false(x)) + vp::str(a.is_fixed(x)) + vp::str(a.has_literal(x)); if (a.truth_value(x) != TruthValue::Free) s += vp::str(a.level(x)); }
        s += vp::str(a.size()) + vp::str(a.decision_level()) + vp::str(a.root_level()) + vp::str(a.is_total()) + vp::str(a.has_conflict()) + vp::str(a.decision(a.decision_level()));
        auto t = a.trail();
        for (auto x : t) s += vp::str(x);
        s += vp::str(t.size()) + vp::str(t.begin_offset(0)) + vp::str(t.end_offset(0)) + vp::str(a.at(0));
    }
    void init(PropagateInit &in) override {
        r.cb();
        l.clear();
        for (char const *c : {"a", "b", "c"}) l.push_back(in.solver_literal(in.symbolic_atoms()[Id(c)].literal()));
        for (auto t : in.theory_atoms()) l.push_back(in.solver_literal(t.literal()));
        for (auto x : l) { in.add_watch(x); in.add_watch(-x, 0); }
        in.remove_watch(l[2]);
        in.remove_watch(-l[2], 0);
        auto x = in.add_literal();
        in.add_literal(false);
        in.freeze_literal(l[0]);
        in.add_clause({l[0], l[1]});
        in.add_weight_constraint(x, {{l[0], 1}, {l[1], 1}}, 2, WeightConstraintType::Equivalence);
        in.add_minimize(l[0], 1, 1);
        in.propagate();
        in.set_check_mode(PropagatorCheckMode::Both);
        in.set_undo_mode(PropagatorUndoMode::Always);
        in.number_of_threads(); in.get_check_mode(); in.get_undo_mode();
        ass(in.assignment());
    }
    void propagate(PropagateControl &c, LiteralSpan) override {
        r.cb();
        ass(c.assignment());
        if (!c.add_clause({l[0], l[2]})) return;
        if (!c.add_clause({l[0], l[2]}, ClauseType::Volatile) || !c.propagate()) return;
        if (n++ < 2) { auto x = c.add_literal(); c.add_watch(x); c.has_watch(x); c.remove_watch(x); }
        c.thread_id();
    }
    void check(PropagateControl &c) override { r.cb(); ass(c.assignment()); if (c.add_clause({l[0], l[2]}, ClauseType::Static)) c.propagate(); }
    literal_t decide(id_t, Assignment const &a, literal_t f) override { r.cb(); ass(a); return f; }
};
static void propagator(R &r) {
    Control ctl{{"0"}};
    Prop p(r);
    r.op("add", [&] { ctl.add("base", {}, "#theory t { u { - : 1, unary }; &p/0 : u, any }. {a;b;c}. &p{1} :- a."); });
    r.op("ground", [&] { ctl.ground({{"base", {}}}); });
    r.op("register_propagator", [&] { ctl.register_propagator(p); });
    r.op("solve", [&] { ctl.solve(LiteralSpan{}, nullptr, false, false).get(); });
    r.op("solve yield", [&] { for (auto &m : ctl.solve()) m.number(); });
}
static void propagator_plain(R &r) {
    struct P : Propagator {
        R &r; explicit P(R &r) : r(r) {}
        void init(PropagateInit &) override { r.cb(); }
        void check(PropagateControl &) override { r.cb(); }
    } p(r);
    Control ctl{{"0"}};
    ctl.add("base", {}, "{a}.");
    ctl.ground({{"base", {}}});
    r.op("register", [&] { ctl.register_propagator(p, true); });
    r.op("solve", [&] { ctl.solve(LiteralSpan{}, nullptr, false, false).get(); });
}
static void ast(R &r) {
    using namespace AST;
    std::vector<Node> st;
    r.op("parse_string", [&] { parse_string("a :- b. {c(1..X)} :- d(X). #theory t { u { - : 1, unary }; &p/1 : u, {<=, =}, u, any }. &p(1) { (1,X) : d(X) } <= 2. a(1;2;3).", [&](Node n) { r.cb(); st.push_back(n); }); });
    r.op("parse_files", [&] { parse_files({lp_file.c_str()}, [&](Node const &) { r.cb(); }, [](WarningCode, char const *) {}); });
    Control ctl;
    r.op("parse_string control", [&] { parse_string("a :- b.", [&](Node const &) { r.cb(); }, ctl); });
    r.op("parse_files control", [&] { parse_files({lp_file.c_str()}, [&](Node const &) { r.cb(); }, ctl); });
    if (r.mode == Record || !r.failed) {
        for (auto &n : st) {
            r.q("to_string", [&] { return n.to_string(); });
            r.q("stream", [&] { return vp::str(n); });
            r.q("type", [&] { return vp::str(int(n.type())); });
            r.q("copy", [&] { return n.copy().to_string(); });
            r.q("deep_copy", [&] { return n.deep_copy().to_string(); });
            r.q("hash", [&] { return vp::str(n.hash() == n.copy().hash()) + vp::str(n == n.copy()) + vp::str(n < n.copy()); });
            r.q("visit_attribute", [&] { int k = 0; n.visit_attribute([&](Attribute, NodeValue) { ++k; }); return vp::str(k); });
            r.q("unpool", [&] { std::string s; for (auto &x : n.unpool()) s += x.to_string(); for (auto &x : n.unpool(true, false)) s += x.to_string(); return s; });
        }
        r.op("visit_ast", [&] { for (auto &n : st) n.visit_ast([&](Node const &) { r.cb(); return true; }); });
        r.op("transform_ast", [&] { for (auto &n : st) n.transform_ast([&](Node const &x) -> Node { r.cb(); return x; }); });
        r.op("builder", [&] { ProgramBuilder b(ctl); for (auto &n : st) b.add(n); b.close(); });
        r.op("builder raii", [&] { ProgramBuilder b(ctl); ProgramBuilder c(std::move(b)); });
        r.op("with_builder", [&] { with_builder(ctl, [&](ProgramBuilder &b) { parse_string("x :- y. #external y.", [&](Node const &n) { r.cb(); b.add(n); }); }); });
    }
}
static void ast_nodes(R &r) {
    using namespace AST;
    Location L("<s>", "<s>", 1, 1, 1, 1);
    r.q("SymbolicTerm", [&] { return Node(Type::SymbolicTerm, L, Number(1)).to_string(); });
    r.q("Function", [&] { std::vector<Node> a{Node(Type::Variable, L, "X")}; return Node(Type::Function, L, "f", a, 0).to_string(); });
    Node t(Type::SymbolicTerm, L, Number(1)), v(Type::Variable, L, "X");
    std::vector<Node> args{t, v};
    Node f(Type::Function, L, "f", args, 0), p(Type::Pool, L, args);
    Node lit(Type::Literal, L, 0, Node(Type::SymbolicAtom, f));
    std::vector<Node> body{lit};
    Node rule(Type::Rule, L, lit, body);
    r.q("get", [&] { return rule.get(Attribute::Head).get<Node>().to_string() + rule.get<NodeVector>(Attribute::Body)[0].get().to_string() + vp::str(rule.get<Location>(Attribute::Location).begin_line()) + f.get<char const *>(Attribute::Name) + vp::str(f.get<int>(Attribute::External)) + t.get<Symbol>(Attribute::Symbol).to_string(); });
    r.op("set number", [&] { f.set(Attribute::External, 1); });
    r.op("set symbol", [&] { t.set(Attribute::Symbol, Number(2)); });
    r.op("set location", [&] { t.set(Attribute::Location, L); });
    r.op("set string", [&] { v.set(Attribute::Name, static_cast<char const *>("Y")); });
    r.op("set ast", [&] { rule.set(Attribute::Head, lit); });
    Node rule2(Type::Rule, L, lit, body);
    r.op("set array", [&] { rule.set(Attribute::Body, rule2.get(Attribute::Body)); });
    auto seq = rule.get<NodeVector>(Attribute::Body);
    r.op("insert", [&] { seq.insert(seq.begin(), lit); });
    r.op("set at", [&] { seq.set(seq.begin(), lit); });
    r.op("assign ref", [&] { seq[0] = lit; });
    r.op("push_back", [&] { seq.push_back(lit); });
    r.op("erase", [&] { seq.erase(seq.begin()); });
    r.op("pop_back", [&] { seq.pop_back(); });
    r.q("size", [&] { return vp::str(seq.size()) + vp::str(seq.empty()); });
    r.q("at", [&] { return seq.at(0)->get().to_string(); });
    r.q("iterate", [&] { std::string s; for (Node n : seq) s += n.to_string(); return s; });
    r.op("clear", [&] { seq.clear(); });
    std::vector<char const *> ops{"=", "<"};
    Node gd(Type::TheoryGuardDefinition, ops, "t");
    auto ss = gd.get<StringVector>(Attribute::Operators);
    r.q("strings", [&] { std::string s; for (char const *x : ss) s += x; return s + vp::str(ss.size()) + ss[0].get() + vp::str(ss.empty()); });
    r.op("str insert", [&] { ss.insert(ss.begin(), ">="); });
    r.op("str set", [&] { ss.set(ss.begin(), ">"); });
    r.op("str assign", [&] { ss[0] = "<="; });
    r.op("str push", [&] { ss.push_back("!="); });
    r.op("str pop", [&] { ss.pop_back(); });
    r.op("str erase", [&] { ss.erase(ss.begin()); });
    Node gd2(Type::TheoryGuardDefinition, ops, "t");
    r.op("set strings", [&] { gd.set(Attribute::Operators, gd2.get(Attribute::Operators)); });
    r.op("str clear", [&] { ss.clear(); });
    Node od(Type::TheoryAtomDefinition, L, 0, "p", 1, "t", Optional<Node>{gd});
    r.q("opt", [&] { auto x = od.get<Optional<Node>>(Attribute::Guard); return x ? x->to_string() : std::string("none"); });
    r.op("opt clear", [&] { od.set(Attribute::Guard, Optional<Node>{}); });
    r.op("opt set", [&] { od.set(Attribute::Guard, Optional<Node>{gd2}); });
}
typedef void (*Scen)(R &);
static std::vector<std::pair<char const *, Scen>> const SC = {{"symbols", symbols}, {"control", control}, {"context", context}, {"solve", solve}, {"conf", conf}, {"stats", stats}, {"backend", backend}, {"observer", observer}, {"observer_backend", observer_backend}, {"theory", theory}, {"propagator", propagator}, {"propagator_plain", propagator_plain}, {"ast", ast}, {"ast_nodes", ast_nodes}};

static void once(Scen f, R &r) {
    try { f(r); }
    catch (Stop const &) {}
    catch (std::exception const &e) { if (!r.failed) vp::fail("c++: " + r.scen + " fails by itself", e.what()); }
}
static void bal(std::string const &key) {
    std::string s;
    static char const *N[] = {"syntax trees", "controls", "handles", "backends", "builders"};
    for (int k = 0; k < 5; ++k) if (vpi_balance(k)) s += std::string(" ") + N[k] + " " + vp::str(vpi_balance(k));
    s += vpi_bad();
    if (!s.empty()) vp::fail(key, s);
    vpi_reset_balance();
}
int main(int argc, char **argv) {
    if (!getenv("VP_VERBOSE")) { int fd = open("/dev/null", O_WRONLY); if (argc > 3) dup2(fd, 2); }
    std::string mode = argv[1];
    wr(lp_file, ".lp", "f(1). g :- not h.\n");
    wr(aspif_file, ".aspif", "asp 1 0 0\n1 0 1 1 0 0\n4 1 x 1 1\n0\n");
    for (auto &sc : SC) {
        if (argc > 2 && sc.first != std::string(argv[2])) continue;
        // events other than models must not fail: the library terminates the process by design
        vpi_skip(sc.first == std::string("stats") ? "" : "clingo_statistics_root");
        R w; w.scen = sc.first; w.warm = true; once(sc.second, w);
        R rec; rec.probeval = w.probeval;
        rec.scen = sc.first;
        vpi_reset_balance();
        sc.second(rec);
        if (mode == "balance") bal(std::string("c++: ") + sc.first + ": normal run");
        long tc = 0;
        for (size_t i = 0; i < rec.names.size(); ++i) {
            std::string key = std::string("c++: ") + sc.first + ": " + rec.names[i];
            tc += rec.calls[i];
            auto go = [&](Mode m, long k, int kind, long j, int exc, bool later, bool chain = false) {
                R r; r.chain = chain;
                r.mode = m; r.scen = sc.first; r.rec = &rec; r.target = static_cast<int>(i); r.k = k; r.kind = kind; r.j = j; r.exc = exc; r.later = later;
                once(sc.second, r);
                ++vp::st().trans;
                if (m == BalF || m == BalE) bal(key);
            };
            if (mode == "fault" || mode == "balance") {
                bool b = mode == "balance";
                if (rec.isq[i]) { go(b ? BalF : FaultM, 1, 0, 0, 0, false); vp::st().nontrivial += rec.calls[i]; }
                else for (long k = 1; k <= rec.calls[i]; ++k) {
                    ++vp::st().nontrivial;
                    vp::state(vp::str(sc.first) + vp::str(i) + "." + vp::str(k));
                    for (int kd = 0; kd < (b ? 1 : vp::thorough() || k == 1 ? 7 : 4); ++kd) go(b ? BalF : FaultM, k, kd, 0, 0, false);
                }
            }
            if (mode == "exc" || mode == "balance")
                for (long j = 1; j <= rec.cbs[i]; ++j) {
                    ++vp::st().nontrivial;
                    vp::state(vp::str(sc.first) + vp::str(i) + "!" + vp::str(j));
                    for (int e = 0; e < (mode == "exc" ? 5 : 1); ++e) for (int l = 0; l < (mode == "exc" && rec.names[i] != "with_backend" ? 2 : 1); ++l) go(mode == "exc" ? ExcM : BalE, 0, 0, j, e, l);
                    if (mode == "exc" && j <= 2) go(ExcM, 0, 0, j, 0, false, true);
                }
        }
        vp::sample(std::string(sc.first) + ": " + vp::str(rec.names.size()) + " operations, " + vp::str(tc) + " calls");
    }
    unlink(lp_file.c_str());
    unlink(aspif_file.c_str());
    return vp::done();
}
