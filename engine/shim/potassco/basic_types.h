// Minimal stand-in for the parts of libpotassco (a submodule that is absent in
// this sandbox) that libgringo, libreify and libclingo/src/control.cc use.
#ifndef VP_POTASSCO_BASIC_TYPES_H
#define VP_POTASSCO_BASIC_TYPES_H
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
#include <utility>
#include <iosfwd>
namespace Potassco {
using Id_t = uint32_t;
using Atom_t = uint32_t;
using Lit_t = int32_t;
using Weight_t = int32_t;
using Wsum_t = int64_t;
constexpr Id_t idMax = static_cast<Id_t>(-1);
constexpr Atom_t atomMin = 1;
constexpr Atom_t atomMax = (1u << 31) - 1;

template <class T> struct Span {
    using value_type = T;
    using iterator = T const *;
    using const_iterator = T const *;
    T const &operator[](std::size_t i) const { return first[i]; }
    T const &at(std::size_t i) const { if (i >= size) throw std::out_of_range("Span"); return first[i]; }
    T const *first;
    std::size_t size;
};
template <class T> inline T const *begin(Span<T> const &s) { return s.first; }
template <class T> inline T const *end(Span<T> const &s) { return s.first + s.size; }
template <class T> inline std::size_t size(Span<T> const &s) { return s.size; }
template <class T> inline bool empty(Span<T> const &s) { return s.size == 0; }
template <class T> inline Span<T> toSpan() { return {nullptr, 0}; }
template <class T> inline Span<T> toSpan(T const *x, std::size_t s) { return {x, s}; }
inline Span<char> toSpan(char const *x) { return {x, std::strlen(x)}; }
template <class C> inline Span<typename C::value_type> toSpan(C const &c) { return {c.empty() ? nullptr : &c[0], c.size()}; }

struct WeightLit_t {
    Lit_t lit;
    Weight_t weight;
};
inline bool operator==(WeightLit_t const &a, WeightLit_t const &b) { return a.lit == b.lit && a.weight == b.weight; }
inline bool operator<(WeightLit_t const &a, WeightLit_t const &b) { return a.lit != b.lit ? a.lit < b.lit : a.weight < b.weight; }

using IdSpan = Span<Id_t>;
using AtomSpan = Span<Atom_t>;
using LitSpan = Span<Lit_t>;
using WeightLitSpan = Span<WeightLit_t>;
using StringSpan = Span<char>;
using LitVec = std::vector<Lit_t>;
using WLitVec = std::vector<WeightLit_t>;

#define VP_ENUM(N, ...)                                                                                               \
    struct N {                                                                                                        \
        enum E { __VA_ARGS__ };                                                                                       \
        N() : val_{static_cast<E>(0)} {}                                                                              \
        N(E x) : val_{x} {}                                                                                           \
        explicit N(unsigned x) : val_{static_cast<E>(x)} {}                                                           \
        operator unsigned() const { return static_cast<unsigned>(val_); }                                             \
        E val_;                                                                                                       \
    }
VP_ENUM(Head_t, Disjunctive = 0, Choice = 1);
VP_ENUM(Body_t, Normal = 0, Sum = 1, Count = 2);
VP_ENUM(Value_t, Free = 0, True = 1, False = 2, Release = 3);
VP_ENUM(Heuristic_t, Level = 0, Sign = 1, Factor = 2, Init = 3, True = 4, False = 5);
VP_ENUM(Directive_t, End = 0, Rule = 1, Minimize = 2, Project = 3, Output = 4, External = 5, Assume = 6, Heuristic = 7, Edge = 8, Theory = 9, Comment = 10);
VP_ENUM(Theory_t, Number = 0, Symbol = 1, Compound = 2, Reserved = 3, Element = 4, Atom = 5, AtomWithGuard = 6);
VP_ENUM(Clause_t, Learnt = 0, Static = 1, Volatile = 2, VolatileStatic = 3);
VP_ENUM(Statistics_t, Empty = 0, Value = 1, Array = 2, Map = 3);
struct Tuple_t {
    enum E { Bracket = -3, Brace = -2, Paren = -1 };
    Tuple_t() : val_{Paren} {}
    Tuple_t(E x) : val_{x} {}
    explicit Tuple_t(int x) : val_{static_cast<E>(x)} {}
    operator int() const { return static_cast<int>(val_); }
    E val_;
};
inline char const *toString(Tuple_t t) {
    switch (t.val_) {
        case Tuple_t::Bracket: return "[]";
        case Tuple_t::Brace: return "{}";
        default: return "()";
    }
}
inline char const *toString(Heuristic_t t) {
    static char const *const names[] = {"level", "sign", "factor", "init", "true", "false"};
    return unsigned(t) < 6 ? names[unsigned(t)] : "";
}
inline Lit_t lit(Lit_t x) { return x; }
inline Lit_t lit(Atom_t x) { return static_cast<Lit_t>(x); }
inline Lit_t lit(WeightLit_t const &x) { return x.lit; }
inline Lit_t neg(Atom_t x) { return -static_cast<Lit_t>(x); }
inline Lit_t neg(Lit_t x) { return -x; }
inline Atom_t atom(Lit_t x) { return static_cast<Atom_t>(std::abs(x)); }

class AbstractProgram {
  public:
    virtual ~AbstractProgram() = default;
    virtual void initProgram(bool incremental) = 0;
    virtual void beginStep() = 0;
    virtual void rule(Head_t ht, AtomSpan const &head, LitSpan const &body) = 0;
    virtual void rule(Head_t ht, AtomSpan const &head, Weight_t bound, WeightLitSpan const &body) = 0;
    virtual void minimize(Weight_t prio, WeightLitSpan const &lits) = 0;
    virtual void project(AtomSpan const &atoms) { (void)atoms; }
    virtual void output(StringSpan const &str, LitSpan const &cond) { (void)str; (void)cond; }
    virtual void external(Atom_t a, Value_t v) { (void)a; (void)v; }
    virtual void assume(LitSpan const &lits) { (void)lits; }
    virtual void heuristic(Atom_t a, Heuristic_t t, int bias, unsigned prio, LitSpan const &cond) { (void)a; (void)t; (void)bias; (void)prio; (void)cond; }
    virtual void acycEdge(int s, int t, LitSpan const &cond) { (void)s; (void)t; (void)cond; }
    virtual void theoryTerm(Id_t termId, int number) { (void)termId; (void)number; }
    virtual void theoryTerm(Id_t termId, StringSpan const &name) { (void)termId; (void)name; }
    virtual void theoryTerm(Id_t termId, int cId, IdSpan const &args) { (void)termId; (void)cId; (void)args; }
    virtual void theoryElement(Id_t elementId, IdSpan const &terms, LitSpan const &cond) { (void)elementId; (void)terms; (void)cond; }
    virtual void theoryAtom(Id_t atomOrZero, Id_t termId, IdSpan const &elements) { (void)atomOrZero; (void)termId; (void)elements; }
    virtual void theoryAtom(Id_t atomOrZero, Id_t termId, IdSpan const &elements, Id_t op, Id_t rhs) { (void)atomOrZero; (void)termId; (void)elements; (void)op; (void)rhs; }
    virtual void endStep() = 0;
};

class AbstractStatistics {
  public:
    using Key_t = uint64_t;
    using Type = Statistics_t;
    virtual ~AbstractStatistics() = default;
    virtual Key_t root() const = 0;
    virtual Statistics_t type(Key_t key) const = 0;
    virtual std::size_t size(Key_t key) const = 0;
    virtual bool writable(Key_t key) const = 0;
    virtual Key_t at(Key_t arr, std::size_t index) const = 0;
    virtual Key_t push(Key_t arr, Statistics_t type) = 0;
    virtual char const *key(Key_t mapK, std::size_t i) const = 0;
    virtual Key_t get(Key_t mapK, char const *at) const = 0;
    virtual bool find(Key_t mapK, char const *element, Key_t *outKey) const = 0;
    virtual Key_t add(Key_t mapK, char const *name, Statistics_t type) = 0;
    virtual double value(Key_t key) const = 0;
    virtual void set(Key_t key, double value) = 0;
};
} // namespace Potassco
#endif
