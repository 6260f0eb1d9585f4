// Enumerations and plain values of the C++ interface for D10.
#include "vp.hh"
#include <clingo.hh>
using namespace Clingo;
namespace {
template <class E> void val(char const *key, E e, int want) {
    vp::st().execs++;
    vp::journal(key);
    vp::state(std::string(key) + "=" + vp::str(want));
    vp::eq(static_cast<int>(e), want, std::string("c++: value of ") + key);
}
template <class E> void txt(char const *key, E e, std::string const &want) {
    vp::st().trans++;
    vp::eq(vp::str(e), want, std::string("c++: text of ") + key);
}
#define V(E, M, N) val(#E "::" #M, E::M, N)
#define P(E, M, N) V(E, M, N), txt(#E "::" #M, E::M, #M)
void enums() {
    P(TruthValue, Free, 0), P(TruthValue, True, 1), P(TruthValue, False, 2);
    V(SymbolType, Infimum, 0), V(SymbolType, Number, 1), V(SymbolType, String, 4), V(SymbolType, Function, 5), V(SymbolType, Supremum, 7);
    V(TheoryTermType, Tuple, 0), V(TheoryTermType, List, 1), V(TheoryTermType, Set, 2), V(TheoryTermType, Function, 3), V(TheoryTermType, Number, 4), V(TheoryTermType, Symbol, 5);
    V(PropagatorCheckMode, None, 0), V(PropagatorCheckMode, Total, 1), V(PropagatorCheckMode, Partial, 2), V(PropagatorCheckMode, Both, 3);
    V(PropagatorUndoMode, Default, 0), V(PropagatorUndoMode, Always, 1);
    V(WeightConstraintType, LeftImplication, -1), V(WeightConstraintType, RightImplication, 1), V(WeightConstraintType, Equivalence, 0);
    P(ClauseType, Learnt, 0), P(ClauseType, Static, 1), P(ClauseType, Volatile, 2), P(ClauseType, VolatileStatic, 3);
    P(HeuristicType, Level, 0), P(HeuristicType, Sign, 1), P(HeuristicType, Factor, 2), P(HeuristicType, Init, 3), P(HeuristicType, True, 4), P(HeuristicType, False, 5);
    P(ExternalType, Free, 0), P(ExternalType, True, 1), P(ExternalType, False, 2), P(ExternalType, Release, 3);
    V(ModelType, StableModel, 0), V(ModelType, BraveConsequences, 1), V(ModelType, CautiousConsequences, 2);
    V(ShowType, Shown, 2), V(ShowType, Atoms, 4), V(ShowType, Terms, 8), V(ShowType, Theory, 16), V(ShowType, All, 31), V(ShowType, Complement, 32);
    V(ConsequenceType, False, 0), V(ConsequenceType, True, 1), V(ConsequenceType, Unknown, 2);
    V(TheorySequenceType, Tuple, 0), V(TheorySequenceType, Set, 1), V(TheorySequenceType, List, 2);
    V(StatisticsType, Value, 1), V(StatisticsType, Array, 2), V(StatisticsType, Map, 3);
    V(ErrorCode, Runtime, 1), V(ErrorCode, Logic, 2), V(ErrorCode, BadAlloc, 3), V(ErrorCode, Unknown, 4);
    txt("ErrorCode::Runtime", ErrorCode::Runtime, "runtime error"), txt("ErrorCode::Logic", ErrorCode::Logic, "logic error");
    txt("ErrorCode::BadAlloc", ErrorCode::BadAlloc, "bad allocation"), txt("ErrorCode::Unknown", ErrorCode::Unknown, "unknown error");
    char const *w[] = {"operation undefined", "runtime error", "atom undefined", "file included", "variable unbounded", "global variable", "other"};
    V(WarningCode, OperationUndefined, 0), V(WarningCode, RuntimeError, 1), V(WarningCode, AtomUndefined, 2), V(WarningCode, FileIncluded, 3);
    V(WarningCode, VariableUnbounded, 4), V(WarningCode, GlobalVariable, 5), V(WarningCode, Other, 6);
    for (int i = 0; i < 7; ++i) txt("WarningCode", static_cast<WarningCode>(i), w[i]);
    using namespace Clingo::AST;
    V(CommentType, Line, 0), V(CommentType, Block, 1);
    using CO = Clingo::AST::ComparisonOperator;
    V(CO, GreaterThan, 0), V(CO, LessThan, 1), V(CO, LessEqual, 2), V(CO, GreaterEqual, 3), V(CO, NotEqual, 4), V(CO, Equal, 5);
    using SG = Clingo::AST::Sign;
    V(SG, NoSign, 0), V(SG, Negation, 1), V(SG, DoubleNegation, 2);
    using UO = Clingo::AST::UnaryOperator;
    V(UO, Minus, 0), V(UO, Negation, 1), V(UO, Absolute, 2);
    using BO = Clingo::AST::BinaryOperator;
    V(BO, Xor, 0), V(BO, Or, 1), V(BO, And, 2), V(BO, Plus, 3), V(BO, Minus, 4), V(BO, Multiplication, 5), V(BO, Division, 6), V(BO, Modulo, 7), V(BO, Power, 8);
    using AF = Clingo::AST::AggregateFunction;
    V(AF, Count, 0), V(AF, Sum, 1), V(AF, Sump, 2), V(AF, Min, 3), V(AF, Max, 4);
    using TO = Clingo::AST::TheoryOperatorType;
    V(TO, Unary, 0), V(TO, BinaryLeft, 1), V(TO, BinaryRight, 2);
    using TD = Clingo::AST::TheoryAtomDefinitionType;
    V(TD, Head, 0), V(TD, Body, 1), V(TD, Any, 2), V(TD, Directive, 3);
}
void results() {
    auto one = [](SolveResult const &r, unsigned i, std::string const &d) {
        vp::journal("solve result " + d);
        vp::st().execs++;
        vp::state("result " + d);
        char const *k = "c++: solve result";
        vp::eq(r.is_satisfiable(), (i & 1) != 0, k, d + " satisfiable");
        vp::eq(r.is_unsatisfiable(), (i & 2) != 0, k, d + " unsatisfiable");
        vp::eq(r.is_unknown(), (i & 3) == 0, k, d + " unknown");
        vp::eq(r.is_exhausted(), (i & 4) != 0, k, d + " exhausted");
        vp::eq(r.is_interrupted(), (i & 8) != 0, k, d + " interrupted");
        vp::eq(r.to_c(), i, k, d + " set");
        std::string t = (i & 1) ? ((i & 4) ? "SATISFIABLE" : "SATISFIABLE+") : (i & 2) ? "UNSATISFIABLE" : "UNKNOWN";
        vp::eq(vp::str(r), t + ((i & 8) ? "/INTERRUPTED" : ""), "c++: text of a solve result", d);
    };
    one(SolveResult(), 0, "default");
    for (unsigned i = 0; i < 16; ++i) {
        SolveResult a(i), c;
        one(a, i, vp::str(i));
        c.to_c() = i;
        one(c, i, vp::str(i) + " set");
        SolveResult d(a);
        one(d, i, vp::str(i) + " copied");
        for (unsigned j = 0; j < 16; ++j) {
            vp::st().trans++;
            vp::eq(a == SolveResult(j), i == j, "c++: solve results compared", vp::str(i) + "==" + vp::str(j));
            vp::eq(a != SolveResult(j), i != j, "c++: solve results compared", vp::str(i) + "!=" + vp::str(j));
        }
    }
}
void plain() {
    for (Symbol s : {Id("a"), Id("a", false), Number(-3), String("x"), Function("f", {Number(1), Infimum()}), Supremum()})
        for (bool p : {false, true}) {
            std::string d = vp::str(s) + (p ? "+" : "-");
            vp::journal("symbolic literal " + d);
            vp::st().execs++;
            SymbolicLiteral l(s, p), m(l);
            vp::check(l.is_positive() == p && l.is_negative() == !p && m.is_positive() == p, "c++: sign of a symbolic literal", d);
            vp::check(l.symbol() == s && m.symbol() == s, "c++: symbol of a symbolic literal", d);
            vp::eq(vp::str(l), (p ? "" : "~") + vp::str(s), "c++: text of a symbolic literal");
        }
    int v[3] = {-1, -1, -1};
    clingo_version(v, v + 1, v + 2);
    vp::check(version() == std::make_tuple(v[0], v[1], v[2]), "c++: version");
    for (char const *f : {"x", "y"}) for (char const *g : {"x", "y"})
        for (size_t a = 1; a < 4; ++a) for (size_t b = 1; b < 4; ++b) for (size_t c = 1; c < 4; ++c) for (size_t d = 1; d < 4; ++d) {
            vp::st().execs++;
            std::string w = vp::str(f) + ":" + vp::str(a) + ":" + vp::str(c), k = w + "-" + g + ":" + vp::str(b) + ":" + vp::str(d);
            vp::journal("location " + k);
            std::string F(f), G(g); // equal names at different addresses
            Location l(F.c_str(), G.c_str(), a, b, c, d), m{clingo_location_t(l)};
            for (auto &x : {l, m}) {
                vp::check(x.begin_file() == F && x.end_file() == G && x.begin_line() == a && x.end_line() == b && x.begin_column() == c && x.end_column() == d, "c++: location", k);
                std::string t = w;
                if (F != G) t += "-" + G + ":" + vp::str(b) + ":" + vp::str(d);
                else if (a != b) t += "-" + vp::str(b) + ":" + vp::str(d);
                else if (c != d) t += "-" + vp::str(d);
                vp::eq(vp::str(x), t, "c++: text of a location");
            }
        }
}
} // namespace
int main() {
    enums();
    results();
    plain();
    return vp::done();
}
