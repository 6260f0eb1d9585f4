// Value semantics of variants, optionals, spans and iterators of the C++ interface.
#include "vp.hh"
#include <algorithm>
#include <clingo.hh>
#include <iterator>
using namespace Clingo;
namespace {
template <class A, class B> void same(A const &got, B const &want, char const *key, std::string const &w = "") { if (!(got == want)) vp::eq(got, want, key, w); }
void must(bool c, char const *key, std::string const &w = "") { if (!c) vp::fail(key, w); }
// ---- values that count their instances and fail on demand
struct Live { static std::set<void const *> &s() { static std::set<void const *> x; return x; } };
bool g_bad = true; // access values of types not held
int g_throw = 0; // the n-th construction from a value fails
struct Fault : std::exception { char const *what() const noexcept override { return "fault"; } };
void tick() { if (g_throw > 0 && --g_throw == 0) throw Fault(); }
template <int tag> struct Obj {
    int v;
    explicit Obj(int x) : v(x) { tick(); born(); }
    Obj(int x, int y) : v(x * 10 + y) { tick(); born(); }
    Obj(Obj const &o) : v((o.alive("copy of"), o.v)) { tick(); born(); }
    Obj(Obj &&o) noexcept : v((o.alive("move of"), o.v)) { o.v = -1; born(); }
    Obj &operator=(Obj const &o) { alive("assign"); o.alive("assign from"); v = o.v; return *this; }
    Obj &operator=(Obj &&o) noexcept { alive("assign"); o.alive("assign from"); int x = o.v; o.v = -1; v = x; return *this; }
    ~Obj() { if (!Live::s().erase(this)) vp::fail("value destroyed twice or never constructed", vp::str(tag)); v = -99; }
    void born() { if (!Live::s().insert(this).second) vp::fail("value constructed twice", vp::str(tag)); }
    void alive(char const *what) const { if (!Live::s().count(this)) vp::fail("dead value used", what); }
    friend std::ostream &operator<<(std::ostream &o, Obj const &x) { x.alive("print"); return o << "obj" << tag << ":" << x.v; }
};
using A = Obj<0>;
using B = Obj<1>;
using V = Variant<A, int, B>;
using O = Optional<A>;

struct Slot { int type; int v; }; // type -1: unspecified, 0: empty
bool operator==(Slot a, Slot b) { return a.type == b.type && a.v == b.v; }
std::ostream &operator<<(std::ostream &o, Slot s) { return o << s.type << "/" << s.v; }

struct Visit {
    int visit(A &a, int k) { a.alive("visit"); return 1000 + a.v + k; }
    int visit(int &i, int k) { return 2000 + i + k; }
    int visit(B &b, int k) { b.alive("visit"); return 3000 + b.v + k; }
};
struct ConstVisit {
    std::string visit(A const &a) { a.alive("visit"); return "A" + vp::str(a.v); }
    std::string visit(int const &i) { return "I" + vp::str(i); }
    std::string visit(B const &b) { b.alive("visit"); return "B" + vp::str(b.v); }
};

int val(A const &a) { a.alive("get"); return a.v; }
int val(B const &b) { b.alive("get"); return b.v; }
int val(int i) { return i; }
template <class T, class X> void probe(X &x, int n, Slot &s, int &is, std::string const &w) {
    bool threw = false;
    int v = 0;
    if (!x.template is<T>() && !g_bad) return; // exceptions are slow
    try { v = val(x.template get<T>()); } catch (std::bad_cast const &) { threw = true; }
    bool i = x.template is<T>();
    must(threw == !i, "variant: get fails iff another type is held", w);
    if (i) { ++is; s = {n, v}; }
}
template <class X> Slot read(X &x, std::string const &w) {
    Slot s{0, 0};
    int is = 0;
    probe<A>(x, 1, s, is, w);
    probe<int>(x, 2, s, is, w);
    probe<B>(x, 3, s, is, w);
    must(is < 2, "variant: at most one type held", w);
    return s;
}
Slot observe(V &x, std::string const &w) {
    Slot s = read(x, w), c = read(static_cast<V const &>(x), w);
    same(c, s, "variant: constant access", w);
    std::ostringstream o;
    o << x;
    if (s.type) {
        same(o.str(), s.type == 1 ? "obj0:" + vp::str(s.v) : s.type == 2 ? vp::str(s.v) : "obj1:" + vp::str(s.v), "variant: printed", w);
        same(x.accept(Visit(), 7), 1000 * s.type + s.v + 7, "variant: visited", w);
        same(static_cast<V const &>(x).accept(ConstVisit()), std::string(1, " AIB"[s.type]) + vp::str(s.v), "variant: visited as constant", w);
    }
    return s;
}

// ---- variants: every sequence of operations on two variants
struct VarOps {
    using X = V;
    static int ops() { return 33; }
    static std::string name(int op) { return "op" + vp::str(op); }
    V x[2] = {V(A(1)), V(B(2))};
    Slot m[2] = {{1, 1}, {3, 2}};
    int next = 10;
    // returns false if a fault was raised
    void apply(int op) {
        Slot o[2] = {m[0], m[1]};
        int n = next++;
        int i = op & 1, k = op >> 1; // i: target
        switch (k) {
            case 0: { A a(n); x[i] = a; same(a.v, n, "variant: assigned value changed"); m[i] = {1, n}; break; }
            case 1: { A const a(n); x[i] = a; m[i] = {1, n}; break; }
            case 2: { x[i] = A(n); m[i] = {1, n}; break; }
            case 3: { B b(n); x[i] = b; m[i] = {3, n}; break; }
            case 4: { x[i] = B(n); m[i] = {3, n}; break; }
            case 5: { x[i] = n; m[i] = {2, n}; break; }
            case 6: { x[i].emplace<A>(n, 3); m[i] = {1, n * 10 + 3}; break; }
            case 7: { x[i].emplace<B>(n); m[i] = {3, n}; break; }
            case 8: { x[i].emplace<int>(n); m[i] = {2, n}; break; }
            case 9: { x[i] = V::make<B>(n, 4); m[i] = {3, n * 10 + 4}; break; }
            case 10: { V t(x[i]); same(observe(t, "copy"), observe(x[i], "source"), "variant: copy constructed"); x[1 - i] = std::move(t); m[1 - i] = m[i]; break; }
            case 11: { V t(std::move(x[i])); if (m[i].type > 0) same(observe(t, "moved"), m[i], "variant: move constructed"); m[i].type = -1; break; }
            case 12: { x[i] = x[1 - i]; m[i] = m[1 - i]; break; }
            case 13: { x[i] = std::move(x[1 - i]); m[i] = m[1 - i]; m[1 - i].type = -1; break; }
            case 14: { V &r = x[i]; x[i] = r; break; }
            case 15: { V &r = x[i]; x[i] = std::move(r); break; }
            case 16: { x[0].swap(x[1]); std::swap(m[0], m[1]); break; }
        }
        (void)o;
    }
    // determines the state of moved-from objects
    void settle() {
        for (int i = 0; i < 2; ++i) if (m[i].type < 0) m[i] = read(x[i], "");
    }
    void verify(std::string const &w) {
        int live = 0;
        for (int i = 0; i < 2; ++i) {
            Slot s = observe(x[i], w);
            if (m[i].type < 0) m[i] = s;
            same(s, m[i], "variant: value held", w);
            live += s.type == 1 || s.type == 3;
        }
        same(int(Live::s().size()), live, "variant: instances alive", w);
    }
    // after a failed operation each variant holds its previous value
    void failed(std::string const &w) { verify(w + " failed"); }
};

Slot observe(O &x, std::string const &w) {
    O const &c = x;
    bool e = static_cast<bool>(x);
    same(static_cast<bool>(c), e, "optional: constant access", w);
    must((x.get() != nullptr) == e && c.get() == x.get(), "optional: get", w);
    if (!e) return {0, 0};
    must(&*x == x.get() && &*c == c.get() && x.operator->() == x.get() && c.operator->() == c.get(), "optional: accessors agree", w);
    x->alive("optional");
    return {1, c->v};
}
struct OptOps {
    static int ops() { return 29; }
    O x[2] = {O(A(1)), O()};
    Slot m[2] = {{1, 1}, {0, 0}};
    int next = 10;
    void apply(int op) {
        int n = next++;
        int i = op & 1, k = op >> 1;
        switch (k) {
            case 0: { A a(n); x[i] = a; same(a.v, n, "optional: assigned value changed"); m[i] = {1, n}; break; }
            case 1: { A const a(n); x[i] = a; m[i] = {1, n}; break; }
            case 2: { x[i] = A(n); m[i] = {1, n}; break; }
            case 3: { x[i].emplace(n); m[i] = {1, n}; break; }
            case 4: { x[i].emplace(n, 2); m[i] = {1, n * 10 + 2}; break; }
            case 5: { x[i].clear(); m[i] = {0, 0}; break; }
            case 6: { O t(x[i]); same(observe(t, "copy"), m[i], "optional: copy constructed"); break; }
            case 7: { O const &c = x[i]; O t(c); same(observe(t, "copy"), m[i], "optional: copy constructed"); x[1 - i] = t; m[1 - i] = m[i]; break; }
            case 8: { O t(std::move(x[i])); same(observe(t, "moved"), m[i], "optional: move constructed"); m[i].type = -1; break; }
            case 9: { O const &c = x[1 - i]; x[i] = c; m[i] = m[1 - i]; break; }
            case 10: { x[i] = std::move(x[1 - i]); m[i] = m[1 - i]; m[1 - i].type = -1; break; }
            case 11: { O const &c = x[i]; x[i] = c; break; }
            case 12: { O &r = x[i]; x[i] = std::move(r); m[i].type = -1; break; }
            case 13: { if (x[i]) { A t(*std::move(x[i])); same(t.v, m[i].v, "optional: value moved out"); m[i].v = -1; } break; }
            case 14: { A a(n); A const b(n + 100); O t(a), u(b), v(A(n + 200)), w(n, 5); must(t->v == n && u->v == n + 100 && v->v == n + 200 && w->v == n * 10 + 5, "optional: constructed from values"); break; }
        }
    }
    // determines the state of moved-from objects
    void settle() {
        for (int i = 0; i < 2; ++i) if (m[i].type < 0) m[i] = observe(x[i], "");
    }
    void verify(std::string const &w) {
        int live = 0;
        for (int i = 0; i < 2; ++i) {
            Slot s = observe(x[i], w);
            if (m[i].type < 0) m[i] = s;
            same(s, m[i], "optional: value held", w);
            live += s.type;
        }
        same(int(Live::s().size()), live, "optional: instances alive", w);
    }
    void failed(std::string const &w) {
        // emplace may have removed the previous value
        for (int i = 0; i < 2; ++i) if (!x[i]) m[i] = {0, 0};
        verify(w + " failed");
    }
};

template <class S> void histories(std::string const &what, int depth, int fdepth, int part, int parts) {
    std::vector<int> h;
    std::function<void()> rec = [&]() {
        if (!h.empty()) {
            std::string w = what;
            for (int o : h) w += " " + std::to_string(o);
            vp::journal(w);
            g_bad = int(h.size()) < depth;
            {
                S s;
                for (size_t i = 0; i < h.size(); ++i) { s.apply(h[i]); if (i + 1 < h.size()) s.settle(); }
                s.verify(w);
                vp::st().trans += 1;
                ++vp::st().execs;
                std::string st = what + vp::str(s.m[0].type) + vp::str(s.m[1].type);
                vp::state(st);
            }
            vp::check(Live::s().empty(), what + ": instances left", w);
            Live::s().clear();
            if (int(h.size()) <= fdepth)
                for (int k = 1;; ++k) {
                    bool thrown = false;
                    {
                        S s;
                        for (size_t i = 0; i + 1 < h.size(); ++i) s.apply(h[i]), s.settle();
                        auto old0 = s.m[0], old1 = s.m[1];
                        g_throw = k;
                        try { s.apply(h.back()); } catch (Fault const &) { thrown = true; }
                        g_throw = 0;
                        if (thrown) { s.m[0] = old0; s.m[1] = old1; s.failed(w + " fault " + std::to_string(k)); }
                        else s.verify(w);
                        ++vp::st().execs;
                        vp::st().nontrivial += thrown;
                    }
                    vp::check(Live::s().empty(), what + ": instances left after a failure", w);
                    Live::s().clear();
                    if (!thrown) break;
                }
        }
        if (int(h.size()) == depth) return;
        for (int o = 0; o < S::ops(); ++o) {
            if (h.empty() && o % parts != part) continue;
            h.push_back(o);
            rec();
            h.pop_back();
        }
    };
    rec();
}

// ---- values that contain optionals and variants of their own type
struct List { A a; Optional<List> next; List(int v) : a(v) {} List(int v, Optional<List> n) : a(v), next(std::move(n)) {} };
struct Tree;
using TV = Variant<A, Tree>;
struct Tree { A a; std::vector<TV> child; };
std::ostream &operator<<(std::ostream &o, Tree const &t) { o << "(" << t.a; for (auto &x : t.child) o << " " << x; return o << ")"; }
std::string show(Optional<List> const &l) { return l ? vp::str(l->a.v) + show(l->next) : "."; }
TV tree(int depth, int v) {
    if (!depth) return TV(A(v));
    Tree t{A(v), {}};
    t.child.push_back(tree(depth - 1, v * 2));
    t.child.push_back(tree(depth - 1, v * 2 + 1));
    return TV(std::move(t));
}
void nested() {
    for (int depth = 1; depth <= 4; ++depth)
        for (int path = 0; path < (1 << (2 * depth)); ++path) {
            vp::journal("nested " + vp::str(depth) + " path " + vp::str(path));
            ++vp::st().execs;
            {
                Optional<List> l;
                std::string want;
                for (int i = depth; i >= 1; --i) l = List(i, std::move(l));
                for (int i = 1; i <= depth; ++i) want += vp::str(i);
                want += ".";
                Optional<List> keep(l);
                for (int i = 0, p = path; i < depth; ++i, p >>= 2) {
                    vp::eq(show(l), want, "optional: nested value");
                    if (!l->next) break;
                    switch (p & 3) {
                        case 0: { Optional<List> const &n = l->next; l = n; break; }
                        case 1: l = std::move(l->next); break;
                        case 2: { List const &n = *l->next; l = n; break; }
                        case 3: l = std::move(*l->next); break;
                    }
                    want = want.substr(1);
                }
                vp::eq(show(l), want, "optional: nested value");
                TV t = tree(depth, 1);
                TV k(t);
                int v = 1;
                for (int i = 0, p = path; i < depth; ++i, p >>= 2) {
                    int c = p & 1;
                    if (p & 2) { TV const &n = t.get<Tree>().child[c]; t = n; }
                    else t = std::move(t.get<Tree>().child[c]);
                    v = v * 2 + c;
                    vp::eq(vp::str(t), vp::str(tree(depth - 1 - i, v)), "variant: nested value");
                    ++vp::st().trans;
                }
                vp::eq(vp::str(k), vp::str(tree(depth, 1)), "variant: nested copy");
            }
            vp::check(Live::s().empty(), "nested: instances left");
            Live::s().clear();
        }
}

// ---- spans
template <class S> void span_is(std::string const &w, S s, std::vector<int> const &v) {
    vp::eq(s.size(), v.size(), "span: size", w);
    vp::eq(s.empty(), v.empty(), "span: empty", w);
    vp::check(std::vector<int>(s.begin(), s.end()) == v && std::vector<int>(begin(s), end(s)) == v, "span: elements", w);
    vp::eq(s.end() - s.begin(), ptrdiff_t(v.size()), "span: distance", w);
    for (size_t i = 0; i < v.size(); ++i) { vp::eq(s[i], v[i], "span: indexed", w); vp::eq(s.data()[i], v[i], "span: data", w); }
    if (!v.empty()) { vp::eq(s.front(), v.front(), "span: front", w); vp::eq(s.back(), v.back(), "span: back", w); }
    std::string p = "{";
    for (size_t i = 0; i < v.size(); ++i) p += (i ? ", " : " ") + vp::str(v[i]);
    vp::eq(vp::str(s), p + " }", "span: printed", w);
    ++vp::st().execs;
}
struct Twice {
    struct It {
        using iterator_category = std::random_access_iterator_tag;
        using value_type = int;
        using difference_type = ptrdiff_t;
        using pointer = int *;
        using reference = int;
        int const *p;
        int operator*() const { return 2 * *p; }
        It &operator++() { ++p; return *this; }
        It operator+(ptrdiff_t n) const { return It{p + n}; }
        friend ptrdiff_t operator-(It a, It b) { return a.p - b.p; }
        friend bool operator==(It a, It b) { return a.p == b.p; }
        friend bool operator!=(It a, It b) { return a.p != b.p; }
    };
    It operator()(int const *p) const { return It{p}; }
};
void spans() {
    std::vector<std::vector<int>> all{{}};
    for (size_t i = 0; i < all.size(); ++i) if (all[i].size() < 4) for (int c = 0; c < 3; ++c) { auto x = all[i]; x.push_back(c); all.push_back(x); }
    for (auto &v : all) {
        std::string w;
        for (int x : v) w += vp::str(x);
        vp::journal("span " + w);
        span_is(w, Span<int>(v), v);
        span_is(w, Span<int>(v.data(), v.size()), v);
        span_is(w, Span<int>(v.data(), v.data() + v.size()), v);
        span_is(w, make_span(v.data(), v.size()), v);
        Span<int> s(v), t(s), u;
        span_is(w, u, {});
        u = t;
        span_is(w, u, v);
        for (size_t i = 0; i <= v.size(); ++i)
            for (size_t j = i; j <= v.size(); ++j) span_is(w, Span<int>(v.data() + i, j - i), std::vector<int>(v.begin() + i, v.begin() + j));
        Span<int, Twice> d(v.data(), v.size(), Twice());
        vp::eq(d.size(), v.size(), "span: size with iterator", w);
        for (size_t i = 0; i < v.size(); ++i) vp::eq(d[i], 2 * v[i], "span: indexed with iterator", w);
        if (!v.empty()) { vp::eq(d.front(), 2 * v.front(), "span: front with iterator"); vp::eq(d.back(), 2 * v.back(), "span: back with iterator"); }
        size_t i = 0;
        for (auto x : d) { vp::eq(x, 2 * v[i], "span: iterated", w); ++i; }
        vp::eq(i, v.size(), "span: iterated", w);
        for (auto &o : all) {
            vp::eq(Span<int>(v) == Span<int>(o), v == o, "span: equality", w);
            vp::eq(equal_range(v, Span<int>(o)), v == o, "span: equal range", w);
            ++vp::st().trans;
        }
        std::vector<Symbol> y;
        for (int x : v) y.push_back(x == 2 ? Id("a") : Number(x));
        Symbol f = Function("f", y);
        auto a = f.arguments();
        vp::check(std::vector<Symbol>(a.begin(), a.end()) == y && a.size() == y.size() && a == SymbolSpan(y), "span: arguments of a symbol", w);
        for (size_t i = 0; i < y.size(); ++i) vp::eq(a[i], y[i], "span: arguments of a symbol", w);
    }
    auto il = [](std::initializer_list<int> l) { span_is("list", Span<int>(l), std::vector<int>(l)); };
    il({}); il({1}); il({1, 2}); il({3, 1, 2});
    vp::state("spans");
}

// ---- iterators: every sequence of operations on a pair of iterators
template <class It, class F> void iterators(std::string const &what, It b, std::vector<std::string> const &val, F get, bool before, int depth) {
    int n = int(val.size()), lo = before ? -1 : 0;
    struct Pair { It x, y; int i, j; };
    std::vector<int> h;
    std::string kw = what.substr(0, what.find(' ')) + ": ";
    std::function<void(Pair)> rec = [&](Pair p) {
        if (int(h.size()) == depth) return;
        for (int op = 0; op < 22; ++op) {
            Pair q(p);
            h.push_back(op);
            std::string w = what;
            for (int o : h) w += " " + std::to_string(o);
            vp::journal(w);
            bool ok = true;
            auto move = [&](int d) { if (q.i + d < lo || q.i + d > n) ok = false; else q.i += d; return ok; };
            int const ks[] = {1, -1, 2, 0};
            int k = ks[(op - 4) & 3];
            if (op == 0) { if (move(1)) { It &r = ++q.x; vp::check(&r == &q.x, kw + "preincrement", w); } }
            else if (op == 1) { if (move(1)) { It r = q.x++; vp::check(r == p.x && !(r != p.x), kw + "postincrement", w); } }
            else if (op == 2) { if (move(-1)) { It &r = --q.x; vp::check(&r == &q.x, kw + "predecrement", w); } }
            else if (op == 3) { if (move(-1)) { It r = q.x--; vp::check(r == p.x && !(r != p.x), kw + "postdecrement", w); } }
            else if (op < 8) { if (move(k)) { It &r = q.x += k; vp::check(&r == &q.x, kw + "addition", w); } }
            else if (op < 12) { if (move(-k)) { It &r = q.x -= k; vp::check(&r == &q.x, kw + "subtraction", w); } }
            else if (op < 16) { if (move(k)) q.x = q.x + k; }
            else if (op == 16) { if (move(2)) q.x = 2 + q.x; }
            else if (op == 17) { if (move(-2)) q.x = q.x - 2; }
            else if (op == 18) { swap(q.x, q.y); std::swap(q.i, q.j); }
            else if (op == 19) { It t(q.x); q.x = q.y; q.y = t; std::swap(q.i, q.j); }
            else if (op == 20) { q.y = q.x; q.j = q.i; }
            else if (op == 21) { if (move(n - q.i)) q.x += n - p.i; }
            if (ok) {
                ++vp::st().trans;
                vp::state(what + vp::str(q.i) + "/" + vp::str(q.j));
                int i = q.i, j = q.j;
                if (i >= 0 && i < n) { vp::eq(get(q.x), val[i], kw + "element", w); vp::eq(get(It(q.x)), val[i], kw + "element of a copy", w); }
                if (j >= 0 && j < n) vp::eq(get(q.y), val[j], kw + "element", w);
                vp::check((q.x == q.y) == (i == j) && (q.x != q.y) == (i != j) && (q.x < q.y) == (i < j) && (q.x > q.y) == (i > j) && (q.x <= q.y) == (i <= j) && (q.x >= q.y) == (i >= j), kw + "comparison", w);
                vp::eq(ptrdiff_t(q.x - q.y), ptrdiff_t(i - j), kw + "distance", w);
                rec(q);
            }
            h.pop_back();
        }
    };
    for (int j : {0, n}) rec(Pair{b, b + j, 0, j});
    ++vp::st().execs;
    // standard algorithms
    It e = b + n;
    vp::eq(int(std::distance(b, e)), n, kw + "standard distance", what);
    std::vector<std::string> fw, bw;
    for (It i = b; i != e; ++i) fw.push_back(get(i));
    vp::check(fw == val, kw + "iterated forward", what);
    for (It i = e; i != b;) { --i; bw.push_back(get(i)); }
    std::reverse(bw.begin(), bw.end());
    vp::check(bw == val, kw + "iterated backward", what);
    bw.clear();
    for (std::reverse_iterator<It> i(e), z(b); i != z; ++i) { It t = i.base(); bw.push_back(get(--t)); }
    std::reverse(bw.begin(), bw.end());
    vp::check(bw == val, kw + "iterated in reverse", what);
    for (int i = 0; i <= n; ++i) {
        It t = b;
        std::advance(t, i);
        vp::check(t == b + i && std::next(b, i) == t && std::prev(e, n - i) == t, kw + "advanced", what);
    }
    IteratorRange<It> r = make_range(b, e);
    vp::eq(int(r.size()), n, "range: size", what);
    vp::eq(r.empty(), n == 0, "range: empty", what);
    vp::check(r.begin() == b && r.end() == e, "range: bounds", what);
    std::vector<std::string> rv;
    for (auto i = r.begin(); i != r.end(); ++i) rv.push_back(get(i));
    vp::check(rv == val, "range: elements", what);
}

struct Prop : Propagator {
    int depth;
    explicit Prop(int d) : depth(d) {}
    void init(PropagateInit &init) override { init.set_check_mode(PropagatorCheckMode::Total); }
    void check(PropagateControl &ctl) override {
        auto ass = ctl.assignment();
        auto trail = ass.trail();
        auto get = [](auto it) { return vp::str(*it); };
        std::vector<std::string> v;
        for (uint32_t i = 0; i < trail.size(); ++i) v.push_back(vp::str(trail.at(i)));
        for (uint32_t l = 0; l <= ass.decision_level(); ++l) {
            std::vector<std::string> u(v.begin() + trail.begin_offset(l), v.begin() + trail.end_offset(l));
            if (u.size() > 4) u.resize(4);
            iterators("trail level " + vp::str(l), trail.begin(l), u, get, l == 0, depth);
            vp::eq(int(trail.end(l) - trail.begin(l)), int(trail.end_offset(l) - trail.begin_offset(l)), "trail: level");
        }
        std::vector<std::string> all;
        for (auto l : trail) all.push_back(vp::str(l));
        vp::check(all == v, "trail: iterated");
        all.clear(); v.clear();
        for (auto l : ass) all.push_back(vp::str(l));
        for (size_t i = 0; i < ass.size(); ++i) { v.push_back(vp::str(ass.at(i))); vp::eq(ass.at(i), ass[i], "assignment: indexed"); }
        vp::check(all == v, "assignment: iterated");
        vp::eq(size_t(ass.end() - ass.begin()), ass.size(), "assignment: size");
        v.resize(std::min<size_t>(v.size(), 3));
        iterators("assignment", ass.begin(), v, get, true, depth);
    }
};

void live(int depth) {
    char const *args[] = {"0"};
    Control ctl(StringSpan(args, 1));
    ctl.add("base", {}, "#theory t{o{- : 1, unary; ++ : 1, binary, left}; &a/1 : o, {=}, o, any; &b/0 : o, any}. &a(1){}. &a(2){1; 2,3; x,y,f(1,2,3) : c} = 2. &b{(1,2);[3];{}}. {c;d}. p(1..3). q(1,2).");
    ctl.ground({{"base", {}}});
    auto str = [](auto it) { return vp::str(*it); };
    auto arr = [](auto it) { return it->to_string() + ((*it).to_string() == it->to_string() ? "" : "!"); };
    std::vector<std::string> atoms, terms;
    auto th = ctl.theory_atoms();
    for (size_t i = 0; i < th.size(); ++i) atoms.push_back(TheoryAtom(th.to_c(), i).to_string());
    vp::eq(atoms.size(), size_t(3), "theory atoms: number");
    iterators("theory-atoms", th.begin(), atoms, arr, true, depth);
    vp::check(th.end() == th.begin() + 3, "theory atoms: end");
    for (auto a : th) {
        std::vector<std::string> es;
        auto el = a.elements();
        clingo_id_t const *ids; size_t n;
        clingo_theory_atoms_atom_elements(th.to_c(), a.to_c(), &ids, &n);
        for (size_t i = 0; i < n; ++i) es.push_back(TheoryElement(th.to_c(), ids[i]).to_string());
        iterators("theory-elements", el.begin(), es, arr, false, depth);
        for (size_t i = 0; i < n; ++i) vp::eq(el[i].to_string(), es[i], "theory elements: indexed");
        vp::check(el.size() == n && el.empty() == !n && el.end() - el.begin() == ptrdiff_t(n), "theory elements: size");
        if (n) vp::check(el.front().to_string() == es.front() && el.back().to_string() == es.back(), "theory elements: ends");
        for (auto e : el) {
            std::vector<std::string> ts;
            clingo_theory_atoms_element_tuple(th.to_c(), e.to_c(), &ids, &n);
            for (size_t i = 0; i < n; ++i) ts.push_back(TheoryTerm(th.to_c(), ids[i]).to_string());
            auto tu = e.tuple();
            iterators("theory-terms", tu.begin(), ts, arr, false, depth);
            for (size_t i = 0; i < n; ++i) vp::eq(tu[i].to_string(), ts[i], "theory terms: indexed");
            if (n) vp::check(tu.front().to_string() == ts.front() && tu.back().to_string() == ts.back(), "theory terms: ends");
            for (auto t : tu)
                if (t.type() != TheoryTermType::Number && t.type() != TheoryTermType::Symbol) {
                    ts.clear();
                    clingo_theory_atoms_term_arguments(th.to_c(), t.to_c(), &ids, &n);
                    for (size_t i = 0; i < n; ++i) ts.push_back(TheoryTerm(th.to_c(), ids[i]).to_string());
                    iterators("theory-arguments", t.arguments().begin(), ts, arr, false, depth);
                }
        }
    }
    // symbolic atoms: input iterators
    auto sa = ctl.symbolic_atoms();
    std::vector<std::string> s1, s2, s3;
    for (auto it = sa.begin(), e = sa.end(); it != e; ++it) s1.push_back(vp::str(it->symbol()));
    for (auto it = sa.begin(); it;) { auto o = it++; s2.push_back(vp::str((*o).symbol())); vp::check(!(o == it), "symbolic atoms: postincrement"); }
    for (auto a : sa) s3.push_back(vp::str(a.symbol()));
    vp::check(s1 == s2 && s1 == s3 && s1.size() == sa.length(), "symbolic atoms: iterated", vp::str(s1.size()));
    std::set<std::string> want{"c", "d", "p(1)", "p(2)", "p(3)", "q(1,2)"};
    vp::check(std::set<std::string>(s1.begin(), s1.end()) == want, "symbolic atoms: elements");
    // configuration
    auto conf = ctl.configuration();
    auto solver = conf["solver"];
    std::vector<std::string> keys;
    for (auto k : conf.keys()) keys.push_back(k);
    vp::eq(conf.keys().size(), ptrdiff_t(keys.size()), "configuration keys: size");
    std::vector<std::string> cut(keys.begin(), keys.begin() + std::min<size_t>(3, keys.size()));
    iterators("configuration-keys", conf.keys().begin(), cut, [](auto it) { return std::string(*it) + (std::string(*it.operator->()) == *it ? "" : "!"); }, true, depth);
    for (size_t i = 0; i < keys.size(); ++i) vp::eq(std::string(conf.keys()[i]), keys[i], "configuration keys: indexed");
    conf["solve"]["parallel_mode"] = "3";
    {
        auto sv = conf["solver"];
        std::vector<std::string> hs;
        size_t n = sv.size();
        for (size_t i = 0; i < n; ++i) { clingo_id_t key; clingo_configuration_root(conf.to_c(), &key); std::string h = "h" + vp::str(i); (void)h; hs.push_back(sv[i]["heuristic"].value() + sv.at(i)["seed"].value()); }
        iterators("configuration-array", sv.begin(), hs, [](auto it) { return std::string((*it)["heuristic"].value()) + (*it.operator->())["seed"].value(); }, true, depth);
        vp::eq(size_t(sv.end() - sv.begin()), n, "configuration array: size");
    }
    conf["solve"]["parallel_mode"] = "1";
    // strings and nodes of syntax trees
    std::vector<AST::Node> stms;
    AST::parse_string("#const x=1. #theory t{o{- : 1, unary}; &a/0 : o, {<=,=,>=}, o, any}. p(1;2;f(x)):-q,not r.", [&](AST::Node n) { stms.push_back(n); });
    for (auto &st : stms) {
        if (st.type() == AST::Type::TheoryDefinition) {
            auto atom = st.get<AST::NodeVector>(AST::Attribute::Atoms);
            auto guard = AST::Node(atom[0]).get<Optional<AST::Node>>(AST::Attribute::Guard);
            auto ops = guard->get<AST::StringVector>(AST::Attribute::Operators);
            std::vector<std::string> v{"<=", "=", ">="};
            iterators("strings", ops.begin(), v, [](auto it) { return std::string((*it).get()) + (it->get() == (*it).get() ? "" : "!"); }, true, depth);
            auto const &cops = ops;
            iterators("constant-strings", cops.begin(), v, [](auto it) { return std::string(*it) + (*it == *it.operator->() ? "" : "!"); }, true, depth);
            for (int i = 0; i < 3; ++i) {
                auto it = ops.begin() + i;
                std::string old = (*it).get();
                *it = "!=";
                for (int j = 0; j < 3; ++j) vp::eq(std::string(ops[j]), j == i ? "!=" : v[j], "strings: assigned through an iterator");
                *it = old.c_str();
            }
        }
        if (st.type() == AST::Type::Rule) {
            auto body = st.get<AST::NodeVector>(AST::Attribute::Body);
            std::vector<std::string> v{"q", "not r"};
            iterators("nodes", body.begin(), v, [](auto it) { return (*it).get().to_string() + (it->get() == (*it).get() ? "" : "!"); }, true, depth);
            auto const &cb = body;
            iterators("constant-nodes", cb.begin(), v, [](auto it) { return (*it).to_string() + (*it == *it.operator->() ? "" : "!"); }, true, depth);
            for (int i = 0; i < 2; ++i) {
                AST::Node old = body[i];
                *(body.begin() + i) = AST::Node(body[1 - i]);
                vp::eq(AST::Node(body[i]).to_string(), v[1 - i], "nodes: assigned through an iterator");
                vp::eq(AST::Node(body[1 - i]).to_string(), v[1 - i], "nodes: assigned through an iterator");
                body[i] = old;
            }
        }
    }
    // search
    Prop p(std::min(depth, 3));
    ctl.register_propagator(p);
    {
        std::set<std::string> m1, m2;
        auto h = ctl.solve(LiteralSpan{}, nullptr, false, true);
        for (auto &m : h) m1.insert(vp::str(m));
        h.get();
        auto h2 = ctl.solve(LiteralSpan{}, nullptr, false, true);
        for (ModelIterator it = begin(h2), e = end(h2); it != e; ++it) m2.insert(vp::str(*it));
        vp::check(m1 == m2 && m1.size() == 4, "models: iterated", vp::str(m1.size()));
    }
    // statistics
    auto stats = ctl.statistics();
    keys.clear();
    for (auto k : stats.keys()) keys.push_back(k);
    vp::check(!keys.empty(), "statistics keys: elements");
    vp::eq(stats.keys().size(), ptrdiff_t(keys.size()), "statistics keys: size");
    cut.assign(keys.begin(), keys.begin() + std::min<size_t>(3, keys.size()));
    iterators("statistics-keys", stats.keys().begin(), cut, [](auto it) { return std::string(*it) + (std::string(*it.operator->()) == *it ? "" : "!"); }, true, depth);
    struct H : SolveEventHandler {
        int depth;
        void on_statistics(UserStatistics step, UserStatistics) override {
            auto a = step.add_subkey("arr", StatisticsType::Array);
            for (int i = 0; i < 3; ++i) a.push(StatisticsType::Value).set_value(i + 5);
            iterators("user-statistics", a.begin(), {"5", "6", "7"}, [](auto it) { return vp::str(int((*it).value())) + (it->value() == (*it).value() ? "" : "!"); }, true, depth);
        }
    } hd;
    hd.depth = depth;
    ctl.solve(LiteralSpan{}, &hd, false, false).get();
    auto us = ctl.statistics()["user_step"]["arr"];
    iterators("statistics-array", us.begin(), {"5", "6", "7"}, [](auto it) { return vp::str(int((*it).value())) + (it->value() == (*it).value() ? "" : "!"); }, true, depth);
    (void)str;
}
} // namespace
int main(int argc, char **argv) {
    std::string what = argv[1];
    int part = argc > 2 ? atoi(argv[2]) : 0, parts = argc > 3 ? atoi(argv[3]) : 1;
    bool t = vp::thorough();
    try {
        if (what == "variant") histories<VarOps>("variant", t ? 5 : 4, t ? 4 : 3, part, parts);
        if (what == "optional") histories<OptOps>("optional", t ? 5 : 4, t ? 4 : 3, part, parts);
        if (what == "nested") nested(), spans();
        if (what == "iterators") live(t ? 4 : 3);
    }
    catch (std::exception const &e) { vp::fail("unexpected exception", e.what()); }
    return vp::done();
}
