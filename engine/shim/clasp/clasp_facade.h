// miniclasp: a small, deterministic and fully controllable stand-in for the
// clasp library (a submodule that is absent in this sandbox).  It implements
// the part of clasp's interface that libclingo/src/clingocontrol.cc and
// clingo_app.cc use, with a chronological DPLL search that decides stable
// models of small programs exactly.  Every nondeterministic choice (decision
// variable and sign, which simulated solver thread moves next, how far an
// asynchronous search gets before it is observed) is taken by vp_choice() so
// that a driver can enumerate all of them.
#ifndef VP_CLASP_FACADE_H
#define VP_CLASP_FACADE_H
#include <potassco/basic_types.h>
#include <potassco/clingo.h>
#include <potassco/theory_data.h>
#include <potassco/program_opts/program_options.h>
#include <algorithm>
#include <atomic>
#include <cstdint>
#include <exception>
#include <forward_list>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#define CLASP_HAS_THREADS 1

// choose one of n alternatives (default: 0); tag: "var", "sign", "thread", "async", "steps"
extern "C" unsigned vp_choice(char const *tag, unsigned n);
extern "C" void vp_set_choice(unsigned (*cb)(char const *tag, unsigned n));

namespace Clasp {

using Var = uint32_t;
class Literal {
  public:
    Literal() = default;
    Literal(Var v, bool sign) : rep_(v * 2 + (sign ? 1 : 0)) {}
    Var var() const { return rep_ >> 1; }
    bool sign() const { return (rep_ & 1) != 0; }
    uint32_t id() const { return rep_; }
    Literal operator~() const { Literal l; l.rep_ = rep_ ^ 1; return l; }
    friend bool operator==(Literal a, Literal b) { return a.rep_ == b.rep_; }
    friend bool operator!=(Literal a, Literal b) { return a.rep_ != b.rep_; }
    friend bool operator<(Literal a, Literal b) { return a.rep_ < b.rep_; }
  private:
    uint32_t rep_ = 0;
};
inline Literal lit_true() { return Literal(0, false); }
inline Literal lit_false() { return Literal(0, true); }
inline Potassco::Lit_t encodeLit(Literal x) { auto v = static_cast<int32_t>(x.var() + 1); return x.sign() ? -v : v; }
inline Literal decodeLit(Potassco::Lit_t x) { return Literal(static_cast<Var>((x >= 0 ? x : -x) - 1), x < 0); }
using LitVec = std::vector<Literal>;
struct WeightLiteral { Literal first; int32_t second; };
using WeightLitVec = std::vector<WeightLiteral>;
using SumVec = std::vector<int64_t>;
using wsum_t = int64_t;

struct Var_t { enum Value { Atom = 1, Body = 2, Hybrid = 3 }; };
struct Ownership_t { enum Type { Retain, Acquire }; };
struct Problem_t { enum Type { Sat, Pb, Asp }; };
using ProblemType = Problem_t::Type;
struct ProjectMode_t { enum Mode { Implicit = 0, Output = 1, Explicit = 2 }; };
struct ClingoPropagatorCheck_t { enum Type { No = 0, Total = 1, Fixpoint = 2, Both = 3 }; };
struct ClingoPropagatorUndo_t { enum Type { Default = 0, Always = 1 }; };

// {{{ clauses and constraints over encoded literals (+-(var+1), 1 is true)
using ELits = std::vector<int>;
struct EWLit { int lit; int weight; };
struct WConstraint {
    int con;                 // encoded literal
    std::vector<EWLit> lits; // may contain negative weights
    int64_t bound;
    bool eq = false;         // sum == bound instead of sum >= bound
    int dir = 0;             // 0: con <-> sum, <0: sum -> con, >0: con -> sum
};
struct ERule {
    bool choice;
    std::vector<int> head;  // atoms (vars, encoded positive)
    bool sum;
    ELits body;
    std::vector<EWLit> wbody;
    int64_t bound;
};
// }}}

class ClaspFacade;
class Solver;
class SharedContext;
struct Model;

class ClingoPropagatorLock {
  public:
    virtual ~ClingoPropagatorLock() = default;
    virtual void lock() = 0;
    virtual void unlock() = 0;
};

class Configurator { public: virtual ~Configurator() = default; };

class ClingoPropagatorInit : public Configurator {
  public:
    ClingoPropagatorInit(Potassco::AbstractPropagator &cb, ClingoPropagatorLock *lock = nullptr) : cb_(&cb), lock_(lock) {}
    Potassco::AbstractPropagator *propagator() const { return cb_; }
    ClingoPropagatorLock *lock() const { return lock_; }
    void addWatch(Literal lit) { watch_.push_back({true, -1, encodeLit(lit)}); }
    void addWatch(uint32_t s, Literal lit) { watch_.push_back({true, checkId(s), encodeLit(lit)}); }
    void removeWatch(Literal lit) { watch_.push_back({false, -1, encodeLit(lit)}); }
    void removeWatch(uint32_t s, Literal lit) { watch_.push_back({false, checkId(s), encodeLit(lit)}); }
    void freezeLit(Literal) {}
    void enableHistory(bool) {}
    void enableClingoPropagatorCheck(ClingoPropagatorCheck_t::Type t) { check_ = t; }
    void enableClingoPropagatorUndo(ClingoPropagatorUndo_t::Type t) { undo_ = t; }
    ClingoPropagatorCheck_t::Type checkMode() const { return check_; }
    ClingoPropagatorUndo_t::Type undoMode() const { return undo_; }
    struct Change { bool add; int solver; int lit; };
    std::vector<Change> const &changes() const { return watch_; }
  private:
    static int checkId(uint32_t s) { if (s > 63) throw std::overflow_error("Invalid solver id"); return static_cast<int>(s); }
    Potassco::AbstractPropagator *cb_;
    ClingoPropagatorLock *lock_;
    std::vector<Change> watch_;
    ClingoPropagatorCheck_t::Type check_ = ClingoPropagatorCheck_t::Total;
    ClingoPropagatorUndo_t::Type undo_ = ClingoPropagatorUndo_t::Default;
};

class ClingoHeuristic {
  public:
    class Factory {
      public:
        Factory(Potassco::AbstractHeuristic &h, ClingoPropagatorLock *lock) : h_(&h), lock_(lock) {}
        Potassco::AbstractHeuristic *heuristic() const { return h_; }
        ClingoPropagatorLock *lock() const { return lock_; }
      private:
        Potassco::AbstractHeuristic *h_;
        ClingoPropagatorLock *lock_;
    };
};

// {{{ events
struct Event { virtual ~Event() = default; };
template <class T> T const *event_cast(Event const &e) { return dynamic_cast<T const *>(&e); }
struct LogEvent : Event {
    enum Type { Message = 0, Warning = 1 };
    LogEvent(Type t, char const *m) : type(t), msg(m) {}
    bool isWarning() const { return type == Warning; }
    Type type;
    char const *msg;
};
class EventHandler {
  public:
    virtual ~EventHandler() = default;
    virtual void onEvent(Event const &) {}
    virtual bool onModel(Solver const &, Model const &) { return true; }
    virtual bool onUnsat(Solver const &, Model const &) { return true; }
};
// }}}

class OutputTable {
  public:
    class Theory {
      public:
        virtual ~Theory() = default;
        virtual char const *first(Model const &m) = 0;
        virtual char const *next() = 0;
    };
    ProjectMode_t::Mode projectMode() const { return mode; }
    Theory *theory = nullptr;
    ProjectMode_t::Mode mode = ProjectMode_t::Output;
    struct Pred { std::string name; ELits cond; };
    std::vector<Pred> preds;
};

struct MinimizeData { std::vector<int> prios; };

class Enumerator {
  public:
    MinimizeData const *minimizer() const { return mini.prios.empty() ? nullptr : &mini; }
    bool optimize() const { return opt; }
    bool commitClause(LitVec const &clause) const;
    MinimizeData mini;
    bool opt = false;
    ClaspFacade *facade = nullptr;
};

struct Model {
    enum Type { Sat = 0, Brave = 1, Cautious = 2, Consequences = 3 };
    bool isTrue(Literal l) const { return value(l) > 0; }
    bool isDef(Literal l) const { auto it = def.find(encodeLit(l)); return it != def.end(); }
    bool isEst(Literal l) const { auto it = est.find(encodeLit(l)); return it != est.end(); }
    int value(Literal l) const {
        Var v = l.var();
        int x = v == 0 ? 1 : (v < values.size() ? values[v] : -1);
        return l.sign() ? -x : x;
    }
    uint64_t num = 0;
    Enumerator const *ctx = nullptr;
    std::vector<int8_t> values; // by var: 1, -1
    std::set<int> def, est;     // consequences (encoded)
    SumVec *costs = nullptr;
    SumVec costVec;
    uint32_t sId = 0;
    unsigned type = 0;
    bool opt = false;
};

struct LowerBound { unsigned level = 0; int64_t bound = 0; bool active() const { return false; } };

// {{{ solver
class Solver {
  public:
    struct Prop {
        ClingoPropagatorInit *init;
        std::set<int> watched;
        size_t head = 0;                                  // next trail literal to look at
        std::map<uint32_t, std::vector<int>> seen;        // level -> literals passed to propagate
        std::set<uint32_t> checked;                       // levels on which check has been called
        size_t lastCheck = static_cast<size_t>(-1);
        uint32_t lastLevel = static_cast<uint32_t>(-1);
        bool checkedTotal = false;
    };
    Solver(SharedContext &ctx, uint32_t id) : ctx_(&ctx), id_(id) { reset(); }
    uint32_t id() const { return id_; }
    bool isTrue(Literal l) const { return val(encodeLit(l)) > 0; }
    bool isFalse(Literal l) const { return val(encodeLit(l)) < 0; }
    bool hasConflict() const { return conflict_; }
    bool propagate(); // unit propagation (and unfounded set propagation) only
    // ----
    int val(int elit) const {
        uint32_t v = static_cast<uint32_t>(elit < 0 ? -elit : elit) - 1;
        int x = v < assign_.size() ? assign_[v] : 0;
        return elit < 0 ? -x : x;
    }
    void reset();
    void grow();
    uint32_t level() const { return static_cast<uint32_t>(levelStart_.size()) - 1; }
    uint32_t levelOf(int elit) const { return level_.at(static_cast<uint32_t>(elit < 0 ? -elit : elit) - 1); }
    bool assign(int elit);
    bool unit();
    bool unfounded();
    bool fixpoint();          // runs propagators, too
    bool fixpointImpl();
    bool checkTotal(bool &changed);
    void decide(int elit);
    void undoLevel();
    bool resolve();           // chronological backtracking; false: search space exhausted
    uint32_t unassigned() const;
    uint32_t numVars() const;
    bool stable() const;
    bool acyclic() const;
    SharedContext *ctx_;
    uint32_t id_;
    std::vector<int8_t> assign_;
    std::vector<uint32_t> level_;
    std::vector<int> trail_;
    std::vector<uint32_t> levelStart_;
    std::vector<int> decision_;
    uint32_t root_ = 0;
    bool conflict_ = false;
    std::vector<Prop> props_;
    std::vector<int> auxVars_;
    LowerBound lower;
    bool started_ = false;
    size_t nConflicts = 0, nChoices = 0;
};
class ClingoAssignment : public Potassco::AbstractAssignment {
  public:
    explicit ClingoAssignment(Solver const &s) : s_(&s) {}
    uint32_t size() const override;
    uint32_t unassigned() const override;
    bool hasConflict() const override { return s_->hasConflict(); }
    uint32_t level() const override { return s_->level(); }
    uint32_t rootLevel() const override { return s_->root_; }
    bool hasLit(Lit_t lit) const override;
    Value_t value(Lit_t lit) const override;
    uint32_t level(Lit_t lit) const override;
    Lit_t decision(uint32_t) const override;
    uint32_t trailSize() const override { return static_cast<uint32_t>(s_->trail_.size()); }
    Lit_t trailAt(uint32_t) const override;
    uint32_t trailBegin(uint32_t) const override;
  private:
    Solver const *s_;
};
// }}}

class SharedContext {
  public:
    OutputTable output;
    Solver *master() const { return solvers[0].get(); }
    unsigned concurrency() const { return static_cast<unsigned>(solvers.size()); }
    Var addVar(Var_t::Value);
    void setFrozen(Var, bool) {}
    void addMinimize(WeightLiteral x, int32_t prio) { extraMin.emplace_back(prio, EWLit{encodeLit(x.first), x.second}); }
    void setEventHandler(EventHandler *h) { handler = h; }
    Literal stepLiteral() const { return lit_true(); }
    // ----
    SharedContext();
    ClaspFacade *facade = nullptr;
    EventHandler *handler = nullptr;
    std::vector<std::unique_ptr<Solver>> solvers;
    uint32_t vars = 1;                                 // number of vars incl. the true var
    std::vector<ELits> clauses;                        // program clauses (rebuilt each step)
    std::vector<ELits> staticClauses;                  // added by the user, persistent
    std::vector<ELits> volatileClauses;                // dropped with the next step
    std::vector<WConstraint> weights, staticWeights;
    std::vector<std::pair<int, EWLit>> extraMin;       // added in init
    bool ok = true;
    // program
    std::vector<ERule> rules;
    std::vector<char> progAtom;                        // var -> is program atom that needs foundation
    bool disjunctive = false;
    struct Edge { int s, t; ELits cond; };
    std::vector<Edge> edges;
};

class ClauseCreator {
  public:
    enum { clause_force_simplify = 1 };
    struct Result { bool ok_; bool ok() const { return ok_; } };
    explicit ClauseCreator(Solver *s) : s_(s) {}
    ClauseCreator &start() { lits_.clear(); return *this; }
    ClauseCreator &add(Literal l) { lits_.push_back(encodeLit(l)); return *this; }
    Result end(unsigned);
  private:
    Solver *s_;
    ELits lits_;
};
struct WeightConstraint {
    enum { create_eq_bound = 1, create_only_btb = 2, create_only_bfb = 4 };
    struct Result { bool ok_; bool ok() const { return ok_; } };
    static Result create(Solver &s, Literal con, WeightLitVec const &lits, int bound, uint32_t flags);
};

class ProgramBuilder {
  public:
    virtual ~ProgramBuilder() = default;
    virtual bool endProgram() = 0;
};

namespace Asp {
enum class MapLit_t { Raw, Refined };
class LogicProgram : public ProgramBuilder {
  public:
    enum OutputState { out_none = 0, out_shown = 1, out_projected = 2, out_all = 3 };
    explicit LogicProgram(SharedContext &ctx) : ctx_(ctx) {}
    LogicProgram &addRule(Potassco::Head_t ht, Potassco::AtomSpan const &head, Potassco::LitSpan const &body);
    LogicProgram &addRule(Potassco::Head_t ht, Potassco::AtomSpan const &head, Potassco::Weight_t bound, Potassco::WeightLitSpan const &body);
    LogicProgram &addMinimize(Potassco::Weight_t prio, Potassco::WeightLitSpan const &lits);
    LogicProgram &removeMinimize();
    LogicProgram &addProject(Potassco::AtomSpan const &atoms);
    LogicProgram &removeProject();
    LogicProgram &addOutput(Potassco::StringSpan const &str, Potassco::LitSpan const &cond);
    LogicProgram &addAcycEdge(uint32_t s, uint32_t t, Potassco::LitSpan const &cond);
    LogicProgram &addDomHeuristic(Potassco::Atom_t a, Potassco::Heuristic_t t, int bias, unsigned prio, Potassco::LitSpan const &cond);
    LogicProgram &addAssumption(Potassco::LitSpan const &lits);
    LogicProgram &addExternal(Potassco::Atom_t a, Potassco::Value_t v);
    Potassco::TheoryData &theoryData() { return theory_; }
    Potassco::Id_t newCondition(Potassco::LitSpan const &cond);
    void enableDistinctTrue() {}
    bool endProgram() override;
    Literal getLiteral(Potassco::Id_t id, MapLit_t = MapLit_t::Raw) const;
    bool validAtom(Potassco::Id_t id) const { return atoms_.count(id) > 0; }
    bool isExternal(Potassco::Atom_t a) const { auto it = atoms_.find(a); return it != atoms_.end() && it->second.external && !it->second.defined; }
    bool isFact(Potassco::Atom_t a) const { auto it = atoms_.find(a); return it != atoms_.end() && it->second.fact; }
    bool isShown(Potassco::Lit_t a) const { return state_(a) & out_shown; }
    bool isProjected(Potassco::Lit_t a) const { return state_(a) & out_projected; }
    void addOutputState(Potassco::Atom_t a, OutputState s) { show_[a] |= s; }
    void extractCore(LitVec const &core, Potassco::LitVec &out) const;
    // ----
    void startStep(); // begin a new step
    struct Atom { Var var = 0; bool external = false, released = false, defined = false, fact = false; Potassco::Value_t value = Potassco::Value_t::False; };
    struct Rule { bool choice; std::vector<uint32_t> head; bool sum; std::vector<int> body; std::vector<EWLit> wbody; int64_t bound; };
    struct Heu { uint32_t atom; unsigned type; int bias; unsigned prio; std::vector<int> cond; };
    Atom &atom(Potassco::Id_t a) { return atoms_[a]; }
    std::map<uint32_t, Atom> atoms_;
    std::vector<Rule> rules_;
    std::map<int, std::vector<EWLit>, std::greater<int>> min_; // priority -> program literals
    bool hasProject_ = false;
    std::set<uint32_t> project_;
    struct Out { std::string name; std::vector<int> cond; };
    std::vector<Out> outputs_;
    struct Edge { int s, t; std::vector<int> cond; };
    std::vector<Edge> edges_;
    std::vector<Heu> heus_;
    std::vector<int> assume_;
    std::vector<int> extLits;
    std::map<uint32_t, unsigned> show_;
    std::vector<std::pair<uint32_t, Potassco::Value_t>> extLog_;
    std::set<uint32_t> theoryFree_; // undefined theory atoms of any step
    std::map<std::vector<int>, uint32_t> conds_;
    bool ended_ = false;
    uint32_t nextCond_ = 1u << 28;
    std::map<ELits, int> bodyVar;
    std::map<std::pair<int64_t, std::vector<std::pair<int, int>>>, int> sumVar;
    int elit(int plit) const { return encodeLit(getLiteral(static_cast<Potassco::Id_t>(plit))); }
  private:
    unsigned state_(Potassco::Lit_t a) const { auto it = show_.find(static_cast<uint32_t>(a < 0 ? -a : a)); return it != show_.end() ? it->second : 0; }
    void touch_(int lit) { atoms_[static_cast<uint32_t>(lit < 0 ? -lit : lit)]; }
    SharedContext &ctx_;
    Potassco::TheoryData theory_;
};
} // namespace Asp

// {{{ configuration
namespace Cli {
class ClaspCliConfig {
  public:
    using KeyType = uint32_t;
    static constexpr KeyType KEY_INVALID = static_cast<KeyType>(-1);
    static constexpr KeyType KEY_ROOT = 0;
    ClaspCliConfig();
    KeyType getKey(KeyType k, char const *path) const;
    KeyType getArrKey(KeyType k, unsigned i) const;
    int getKeyInfo(KeyType k, int *nSub = nullptr, int *arrLen = nullptr, char const **help = nullptr, int *nVal = nullptr) const;
    char const *getSubkey(KeyType k, uint32_t i) const;
    int getValue(KeyType k, std::string &value) const;
    int setValue(KeyType k, char const *value);
    void addConfigurator(Configurator *c, Ownership_t::Type = Ownership_t::Retain) { props.push_back(static_cast<ClingoPropagatorInit *>(c)); }
    void setHeuristicCreator(ClingoHeuristic::Factory *f) { heu.reset(f); }
    void releaseOptions() {}
    void addOptions(Potassco::ProgramOptions::OptionContext &root);
    bool finalize(Potassco::ProgramOptions::ParsedOptions const &, Problem_t::Type, bool) { return true; }
    // ----
    std::string get(char const *path) const;
    long getInt(char const *path) const;
    struct Node { std::string name, value, help; bool hasValue = false, isSet = false, isArray = false; std::vector<KeyType> sub; int kind = 0; };
    std::vector<Node> nodes;
    std::vector<ClingoPropagatorInit *> props;
    std::unique_ptr<ClingoHeuristic::Factory> heu;
  private:
    KeyType add(KeyType parent, char const *name, char const *help, char const *value = nullptr, int kind = 0);
};
} // namespace Cli
// }}}

struct SolveMode_t {
    enum Mode { Default = 0, Async = 1, Yield = 2, AsyncYield = 3 };
    SolveMode_t(Mode m = Default) : m_(m) {}
    explicit SolveMode_t(unsigned m) : m_(static_cast<Mode>(m)) {}
    operator unsigned() const { return m_; }
    Mode m_;
};

class Statistics : public Potassco::AbstractStatistics {
  public:
    Statistics();
    Key_t root() const override { return 0; }
    Potassco::Statistics_t type(Key_t key) const override { return n(key).type; }
    std::size_t size(Key_t key) const override;
    bool writable(Key_t key) const override { return n(key).writable; }
    Key_t at(Key_t arr, std::size_t index) const override;
    Key_t push(Key_t arr, Potassco::Statistics_t type) override;
    char const *key(Key_t mapK, std::size_t i) const override;
    Key_t get(Key_t mapK, char const *at) const override;
    bool find(Key_t mapK, char const *element, Key_t *outKey) const override;
    Key_t add(Key_t mapK, char const *name, Potassco::Statistics_t type) override;
    double value(Key_t key) const override;
    void set(Key_t key, double value) override;
    void setValue(std::vector<std::string> const &path, double v);
    void setArray(std::vector<std::string> const &path, std::vector<double> const &v);
  private:
    struct Node { Potassco::Statistics_t type = Potassco::Statistics_t::Value; double value = 0; std::vector<std::pair<std::string, Key_t>> map; std::vector<Key_t> arr; bool writable = false; };
    Key_t path_(std::vector<std::string> const &path, Potassco::Statistics_t type);
    Key_t mk(Potassco::Statistics_t t, bool w);
    Node const &n(Key_t k) const { if (k >= nodes_.size()) throw std::logic_error("invalid key"); return nodes_[k]; }
    Node &n(Key_t k) { if (k >= nodes_.size()) throw std::logic_error("invalid key"); return nodes_[k]; }
    std::vector<Node> nodes_;
};

class ClaspFacade {
  public:
    enum EnumMode { enum_volatile, enum_static };
    struct Result {
        enum Base { UNKNOWN = 0, SAT = 1, UNSAT = 2 };
        enum Ext { EXT_EXHAUST = 4, EXT_INTERRUPT = 8 };
        bool sat() const { return (flags & 3) == SAT; }
        bool unsat() const { return (flags & 3) == UNSAT; }
        bool exhausted() const { return (flags & EXT_EXHAUST) != 0; }
        bool interrupted() const { return (flags & EXT_INTERRUPT) != 0; }
        operator Base() const { return static_cast<Base>(flags & 3); }
        uint8_t flags = 0;
        uint8_t signal = 0;
    };
    struct Summary {
        bool sat() const { return result.sat(); }
        bool unsat() const { return result.unsat(); }
        Model const *model() const { return hasModel ? mod : nullptr; }
        LitVec const *unsatCore() const { return hasCore ? &core : nullptr; }
        Result result;
        Model const *mod = nullptr;
        bool hasModel = false, hasCore = false;
        LitVec core;
        uint32_t step = 0;
        uint64_t numEnum = 0, numOptimal = 0;
    };
    struct StepReady : Event { explicit StepReady(Summary const &s) : summary(&s) {} Summary const *summary; };
    class SolveHandle {
      public:
        explicit SolveHandle(ClaspFacade *f, uint64_t gen) : f_(f), gen_(gen) {}
        ~SolveHandle();
        SolveHandle(SolveHandle &&o) : f_(o.f_), gen_(o.gen_) { o.f_ = nullptr; }
        SolveHandle(SolveHandle const &) = delete;
        Result get() const;
        Model const *model() const;
        bool ready() const;
        void wait() const;
        bool waitFor(double) const;
        void cancel() const;
        void resume() const;
      private:
        ClaspFacade *f_;
        uint64_t gen_;
    };
    ClaspFacade();
    ~ClaspFacade();
    SharedContext ctx;
    Asp::LogicProgram &startAsp(Cli::ClaspCliConfig &config, bool allowUpdate = false);
    ProgramBuilder &start(Cli::ClaspCliConfig &config, ProblemType) { return startAsp(config, false); }
    static ProblemType detectProblemType(std::istream &) { return Problem_t::Asp; }
    void keepProgram() {}
    void enableProgramUpdates() { incremental_ = true; }
    bool incremental() const { return incremental_; }
    ProgramBuilder *program() const { return prg_.get(); }
    bool ok() const { return ctx.ok; }
    ProgramBuilder &update(bool updateConfig = false);
    bool prepare(EnumMode m);
    bool prepared() const { return prepared_; }
    SolveHandle solve(SolveMode_t mode);
    bool solving() const;
    bool solved() const { return solved_; }
    bool interrupt(int sig);
    void shutdown();
    Summary const &summary() const { return summary_; }
    Potassco::AbstractStatistics *getStats() const;
    // ----
    enum Status { st_idle, st_run, st_model, st_done };
    bool advance(bool stopAtModel, size_t maxSteps); // run search; true if something became ready
    bool stepThread(Solver &s);
    void finish();
    bool commit(Solver &s);
    void cancelSolve();
    void event(Event const &e) { if (ctx.handler) ctx.handler->onEvent(e); }
    void startSearch(unsigned mode);
    std::vector<int64_t> cost(Solver const &s) const;
    Cli::ClaspCliConfig *config_ = nullptr;
    std::unique_ptr<Asp::LogicProgram> prg_;
    bool incremental_ = false, prepared_ = false, solved_ = false, first_ = true;
    Summary summary_;
    mutable Statistics stats_;
    Status status_ = st_idle;
    unsigned mode_ = 0;
    uint64_t gen_ = 0;
    int interrupt_ = 0, pending_ = 0;
    std::exception_ptr error_;
    Model model_;
    Enumerator enum_;
    std::vector<Solver *> active_;
    bool exhausted_ = false, stopped_ = false;
    int stepVar_ = 0;
    std::vector<int> assumptions_;
    // optimization
    std::vector<std::pair<int, std::vector<EWLit>>> mins_;
    std::string optMode_, enumMode_;
    long limit_ = 0;
    bool optPhase_ = false, haveBest_ = false, proven_ = false;
    std::vector<int64_t> best_;
    bool project_ = false;
    std::vector<int> projVars_;
    std::set<int> cons_;
    bool haveCons_ = false;
    bool modelReady_ = false;
    std::vector<ELits> record_;
    long conflictLimit_ = -1;
};

inline bool operator==(ClaspFacade::Result a, ClaspFacade::Result::Base b) { return (a.flags & 3) == b; }

} // namespace Clasp
#endif
