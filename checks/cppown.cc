// Owner histories of the C++ interface: every short sequence of create/copy/move/assign/drop
// operations must give back each acquired library object exactly once.
#include "vp.hh"
#include <clingo.hh>
#include <memory>
extern "C" {
__attribute__((weak)) long vpi_balance(int); __attribute__((weak)) char const *vpi_bad(); __attribute__((weak)) void vpi_reset_balance();
}
using namespace Clingo;
using namespace Clingo::AST;
static void bal(std::string const &key) {
    std::string s;
    static char const *N[] = {"syntax trees", "controls", "handles", "backends", "builders"};
    for (int k = 0; k < 5; ++k) if (vpi_balance(k)) s += std::string(" ") + N[k] + " " + vp::str(vpi_balance(k));
    s += vpi_bad();
    if (!s.empty()) vp::fail(key, s);
    vpi_reset_balance();
}
static Location L() { return Location("<t>", "<t>", 1, 1, 1, 1); }
static Node num(int x) { return Node(Type::SymbolicTerm, L(), Number(x)); }
static Node pool() { std::vector<Node> v{num(1), num(2)}; return Node(Type::Pool, L(), v); }
static std::vector<Node> args(Node &n) { std::vector<Node> r; auto v = n.get(Attribute::Arguments).get<NodeVector>(); for (Node x : v) r.push_back(x); return r; }
static std::string show(Optional<Node> const &n) { return n ? n->to_string() : "-"; }
static long id(Optional<Node> const &n) { return n ? reinterpret_cast<long>(n->to_c()) : 0; }

static void node() {
    int D = vp::thorough() ? 4 : 3;
    vp::explore("node owners", [&](vp::Choices &ch) {
        {
            Optional<Node> s[2];
            s[0] = num(1);
            s[1] = pool();
            for (int d = 0; d < D; ++d) {
                int i = ch(2), o = ch(19), j = 1 - i;
                auto b0 = show(s[0]), b1 = show(s[1]);
                auto bi = i ? b1 : b0, bj = i ? b0 : b1;
                auto want = [&](std::string wi, std::string wj) { vp::eq(show(s[i]), wi, "c++: node owners: target after operation " + vp::str(o)); vp::eq(show(s[j]), wj, "c++: node owners: source after operation " + vp::str(o)); };
                bool full = s[i] && s[j];
                switch (o) {
                    case 0: s[i] = pool(); break;
                    case 1: if (full) { *s[i] = *s[j]; want(bj, bj); vp::eq(id(s[i]), id(s[j]), "c++: node owners: assignment shares"); } break;
                    case 2: if (s[i]) { auto &r = *s[i]; *s[i] = r; want(bi, bj); } break;
                    case 3: if (full) { *s[i] = std::move(*s[j]); vp::eq(show(s[i]), bj, "c++: node owners: move assignment"); s[j] = Optional<Node>(); } break;
                    case 4: if (s[i]) { auto &r = *s[i]; *s[i] = std::move(r); s[i] = num(4); } break;
                    case 5: if (s[i]) { Node x{*s[i]}; vp::eq(x.to_string(), bi, "c++: node owners: copy"); want(bi, bj); } break;
                    case 6: if (s[i]) { Node x{std::move(*s[i])}; vp::eq(x.to_string(), bi, "c++: node owners: move"); s[i] = x; want(bi, bj); } break;
                    case 7: if (s[i]) { s[j] = s[i]->copy(); want(bi, bi); vp::check(id(s[i]) != id(s[j]), "c++: node owners: copy is a new node"); } break;
                    case 8: if (s[i]) { s[j] = s[i]->deep_copy(); want(bi, bi); } break;
                    case 9: s[i] = Optional<Node>(); break;
                    case 10: { auto &r = s[i]; s[i] = r; want(bi, bj); break; }
                    case 11: s[i] = s[j]; want(bj, bj); break;
                    case 12: { Optional<Node> x{std::move(s[j])}; s[j] = Optional<Node>(); s[i] = std::move(x); vp::eq(show(s[i]), bj, "c++: node owners: move of an optional"); break; }
                    case 13: if (full) { std::swap(*s[i], *s[j]); want(bj, bi); } break;
                    case 14: if (full && s[i]->type() == Type::Pool) { auto v = s[i]->get(Attribute::Arguments).get<NodeVector>(); v.insert(v.begin(), s[j]->deep_copy()); } break;
                    case 15: if (s[i] && s[i]->type() == Type::Pool && args(*s[i]).size() > 1) { auto v = s[i]->get(Attribute::Arguments).get<NodeVector>(); Node x = *v.erase(v.begin()); s[j] = x; } break;
                    case 16: if (s[i]) { auto v = s[i]->unpool(); s[j] = v.back(); } break;
                    case 17: if (s[i] && s[i]->type() == Type::Pool) { auto v = s[i]->get(Attribute::Arguments).get<NodeVector>(); v.set(v.begin(), num(9)); v.push_back(*v.begin()); v.pop_back(); } break;
                    case 18: if (s[i] && s[i]->type() == Type::Pool) { auto w = s[i]->get(Attribute::Arguments); s[i]->set(Attribute::Arguments, w); want(bi, bj); } break;
                }
                vp::state(show(s[0]) + "|" + show(s[1]));
                ++vp::st().nontrivial;
            }
        }
        bal("c++: node owners");
    });
}
static bool ok(Control &c) { return c.to_c() != nullptr; }
static void control() {
    int D = vp::thorough() ? 4 : 3;
    vp::explore("control owners", [&](vp::Choices &ch) {
        {
            std::unique_ptr<Control> s[2];
            auto mk = [](char const *p) { auto c = std::unique_ptr<Control>(new Control(StringSpan{"0"})); c->add("base", {}, p); c->ground({{"base", {}}}); return c; };
            std::string tag[2] = {"a", "b"};
            s[0] = mk("a."); s[1] = mk("b.");
            auto solve = [](Control &c) { std::string r; auto h = c.solve(); for (auto const &m : h) for (auto const &x : m.symbols()) r += x.to_string(); h.get(); return r; };
            for (int d = 0; d < D; ++d) {
                int i = ch(2), o = ch(9), j = 1 - i;
                switch (o) {
                    case 0: s[i] = mk("c."); tag[i] = "c"; break;
                    case 1: s[i].reset(); tag[i] = "-"; break;
                    case 2: if (s[i] && s[j]) { *s[i] = std::move(*s[j]); tag[i] = tag[j]; s[j].reset(); tag[j] = "-"; } break;
                    case 3: if (s[i]) { Control x{std::move(*s[i])}; vp::eq(solve(x), tag[i], "c++: control owners: moved control"); s[i].reset(); tag[i] = "-"; } break;
                    case 4: if (s[i]) { s[j].reset(new Control(std::move(*s[i]))); s[i].reset(); tag[j] = tag[i]; tag[i] = "-"; } break;
                    case 5: if (s[i]) { auto &r = *s[i]; *s[i] = std::move(r); } break;
                    case 6: if (s[i] && s[j]) { std::swap(*s[i], *s[j]); std::swap(tag[i], tag[j]); } break;
                    case 7: if (s[i] && tag[i] != "-") { Control x{s[i]->to_c(), false}; vp::eq(solve(x), tag[i], "c++: control owners: borrowed control"); } break;
                    case 8: if (s[i]) { Control x{s[i]->to_c(), false}; if (s[j]) { Control y{s[j]->to_c(), false}; y = std::move(x); } } break;
                }
                for (int k = 0; k < 2; ++k) if (s[k]) vp::eq(ok(*s[k]) ? solve(*s[k]) : std::string("null"), tag[k], "c++: control owners: answer after operation " + vp::str(o));
                vp::state(tag[0] + tag[1]);
                ++vp::st().nontrivial;
            }
        }
        bal("c++: control owners");
    });
}
static void handle() {
    int D = vp::thorough() ? 5 : 4;
    vp::explore("handle owners", [&](vp::Choices &ch) {
        {
            Control c[2] = {Control{{"0"}}, Control{{"0"}}};
            for (auto &x : c) { x.add("base", {}, "{a;b}."); x.ground({{"base", {}}}); }
            SolveHandle s[2];
            int st[2] = {-1, -1};  // which control is running in the slot
            bool lastm[2] = {false, false};
            for (int d = 0; d < D; ++d) {
                int i = ch(2), o = ch(8), j = 1 - i;
                switch (o) {
                    case 0: case 1: {
                        int k = o == 0 ? i : j;
                        if (st[0] == k || st[1] == k) break;
                        s[i] = c[k].solve(SymbolicLiteralSpan{}, nullptr, o == 1, true);
                        st[i] = k;
                        break;
                    }
                    case 2: s[i] = SolveHandle{}; st[i] = -1; break;
                    case 3: if (st[i] >= 0) { int n = 0; for (auto const &m : s[i]) { (void)m; ++n; } vp::check(n <= 4, "c++: handle owners: too many models"); } break;
                    case 4: if (st[i] >= 0) { s[i].resume(); s[i].wait(); s[i].model(); } break;
                    case 5: { std::swap(s[i], s[j]); std::swap(st[i], st[j]); break; }
                    case 6: { bool had = st[i] >= 0; SolveHandle x{std::move(s[i])}; st[i] = -1; if (had && ch(2)) { for (auto const &m : x) { (void)m; break; } x.cancel(); } break; }
                    case 7: if (st[i] >= 0) { s[i].cancel(); auto r = s[i].get(); (void)r; } break;
                }
                vp::state(vp::str(st[0]) + "," + vp::str(st[1]));
                ++vp::st().nontrivial;
                vp::eq(vpi_balance(2), static_cast<long>((st[0] >= 0) + (st[1] >= 0)), "c++: handle owners: open handles after operation " + vp::str(o));
            }
        }
        bal("c++: handle owners");
    });
}
static Optional<Node> parse1() { Optional<Node> r; parse_string("#program base.", [&r](Node const &n) { r = n; }); return r; }
static void session() {
    int D = vp::thorough() ? 5 : 4;
    vp::explore("session owners", [&](vp::Choices &ch) {
        {
            Control c{{"0"}};
            struct X {};
            for (int d = 0; d < D; ++d) {
                int o = ch(11);
                std::string want;
                try {
                    switch (o) {
                        case 0: { Backend b{c.backend()}; b.rule(false, {b.add_atom(Id("a"))}, {}); break; }
                        case 1: { Backend b{c.backend()}; Backend e{std::move(b)}; e.add_atom(); break; }
                        case 2: { Backend b{c.backend()}; { Backend e{std::move(b)}; } break; }
                        case 3: { Backend b{c.backend()}; throw X(); }
                        case 4: c.with_backend([](Backend &b) { b.add_atom(); }); break;
                        case 5: c.with_backend([](Backend &) { throw X(); }); break;
                        case 6: { ProgramBuilder b{c}; b.add(*parse1()); break; }
                        case 7: with_builder(c, [](ProgramBuilder &b) { parse_string("x.", [&b](Node const &n) { b.add(n); }); }); break;
                        case 8: with_builder(c, [](ProgramBuilder &) { throw X(); }); break;
                        case 9: with_builder(c, [](ProgramBuilder &b) { b.add(num(1)); }); break;
                        case 10: { auto h = c.solve(); for (auto const &m : h) (void)m; h.get(); break; }
                    }
                }
                catch (X const &) { want = "x"; }
                catch (std::exception const &e) { want = "e"; }
                vp::eq(want, std::string(o == 3 || o == 5 || o == 8 ? "x" : o == 9 ? "e" : ""), "c++: session owners: result of operation " + vp::str(o));
                vp::eq(vpi_balance(3), 0L, "c++: session owners: open backends after operation " + vp::str(o));
                vp::eq(vpi_balance(4), 0L, "c++: session owners: open builders after operation " + vp::str(o));
                vp::state(vp::str(o));
                ++vp::st().nontrivial;
            }
        }
        bal("c++: session owners");
    });
}
int main(int, char **argv) {
    vpi_reset_balance();
    std::string m = argv[1];
    if (m == "node") node();
    if (m == "control") control();
    if (m == "handle") handle();
    if (m == "session") session();
    return vp::done();
}
