// See clasp/clasp_facade.h: deterministic, controllable stand-in for clasp.
#include <clasp/clasp_facade.h>
#include <clasp/cli/clasp_app.h>
#include <cassert>
#include <cstring>
#include <sstream>

static unsigned (*g_choice)(char const *, unsigned) = nullptr;
extern "C" __attribute__((visibility("default"))) unsigned vp_choice(char const *tag, unsigned n) {
    if (n <= 1 || g_choice == nullptr) return 0;
    unsigned r = g_choice(tag, n);
    return r < n ? r : 0;
}
extern "C" __attribute__((visibility("default"))) void vp_set_choice(unsigned (*cb)(char const *, unsigned)) { g_choice = cb; }

namespace Clasp {
namespace {
struct Lock {
    explicit Lock(ClingoPropagatorLock *l) : l_(l) { if (l_) l_->lock(); }
    ~Lock() { if (l_) l_->unlock(); }
    ClingoPropagatorLock *l_;
};
// solver as seen by a propagator
class Control : public Potassco::AbstractSolver {
  public:
    Control(Solver &s, size_t prop, bool ro = false) : s_(&s), a_(s), p_(prop), ro_(ro) {}
    Potassco::Id_t id() const override { return s_->id(); }
    Potassco::AbstractAssignment const &assignment() const override { return a_; }
    bool addClause(Potassco::LitSpan const &clause, Potassco::Clause_t type) override {
        if (ro_) throw std::logic_error("Invalid addClause() on undo");
        if (s_->hasConflict()) return false;
        ELits lits(Potassco::begin(clause), Potassco::end(clause));
        for (auto l : lits) if (!a_.hasLit(l)) throw std::invalid_argument("invalid literal");
        bool vol = type == Potassco::Clause_t::Volatile || type == Potassco::Clause_t::VolatileStatic;
        auto &db = vol ? s_->ctx_->volatileClauses : s_->ctx_->staticClauses;
        db.push_back(lits);
        dirty = true;
        int open = 0, unit = 0;
        for (auto l : lits) {
            int v = s_->val(l);
            if (v > 0) return true;
            if (v == 0 && l != unit) { ++open; unit = l; }
        }
        if (open == 0) { s_->conflict_ = true; return false; }
        if (open == 1) s_->assign(unit);
        return !s_->hasConflict();
    }
    Potassco::Lit_t addVariable() override {
        if (s_->hasConflict()) return 0;
        Var v = s_->ctx_->addVar(Var_t::Atom);
        for (auto &x : s_->ctx_->solvers) { x->grow(); }
        s_->auxVars_.push_back(static_cast<int>(v) + 1);
        return static_cast<int>(v) + 1;
    }
    bool propagate() override {
        if (s_->hasConflict()) return false;
        dirty = true;
        return s_->propagate();
    }
    bool hasWatch(Potassco::Lit_t lit) const override { return s_->props_[p_].watched.count(lit) > 0; }
    void addWatch(Potassco::Lit_t lit) override {
        if (!a_.hasLit(lit)) throw std::invalid_argument("invalid literal");
        s_->props_[p_].watched.insert(lit);
    }
    void removeWatch(Potassco::Lit_t lit) override { s_->props_[p_].watched.erase(lit); }
    bool dirty = false;
  private:
    Solver *s_;
    ClingoAssignment a_;
    size_t p_;
    bool ro_;
};
} // namespace

// {{{ ClingoAssignment
uint32_t ClingoAssignment::size() const { return s_->numVars(); }
uint32_t ClingoAssignment::unassigned() const { return s_->unassigned(); }
bool ClingoAssignment::hasLit(Lit_t lit) const { return lit != 0 && static_cast<uint32_t>(lit < 0 ? -static_cast<int64_t>(lit) : lit) <= s_->numVars(); }
ClingoAssignment::Value_t ClingoAssignment::value(Lit_t lit) const {
    if (!hasLit(lit)) throw std::invalid_argument("Invalid literal");
    int v = s_->val(lit);
    return v > 0 ? Value_t::True : v < 0 ? Value_t::False : Value_t::Free;
}
uint32_t ClingoAssignment::level(Lit_t lit) const {
    if (value(lit) == Value_t::Free) return static_cast<uint32_t>(-1);
    return s_->levelOf(lit);
}
ClingoAssignment::Lit_t ClingoAssignment::decision(uint32_t l) const {
    if (l > s_->level()) throw std::invalid_argument("Invalid decision level");
    return l == 0 ? 1 : s_->decision_[l];
}
ClingoAssignment::Lit_t ClingoAssignment::trailAt(uint32_t i) const {
    if (i >= s_->trail_.size()) throw std::invalid_argument("Invalid trail position");
    return s_->trail_[i];
}
uint32_t ClingoAssignment::trailBegin(uint32_t l) const {
    if (l > s_->level()) throw std::invalid_argument("Invalid decision level");
    return s_->levelStart_[l];
}
// }}}
// {{{ Solver
uint32_t Solver::numVars() const { return static_cast<uint32_t>(assign_.size()); }
uint32_t Solver::unassigned() const { return numVars() - static_cast<uint32_t>(trail_.size()); }
void Solver::reset() {
    assign_.assign(ctx_->vars, 0);
    level_.assign(ctx_->vars, 0);
    trail_.clear();
    levelStart_.assign(1, 0);
    decision_.assign(1, 0);
    root_ = 0;
    conflict_ = false;
    started_ = false;
    assign(1);
    for (auto v : auxVars_) assign(-v);
}
void Solver::grow() {
    if (assign_.size() < ctx_->vars) { assign_.resize(ctx_->vars, 0); level_.resize(ctx_->vars, 0); }
}
bool Solver::assign(int e) {
    int v = val(e);
    if (v > 0) return true;
    if (v < 0) { conflict_ = true; return false; }
    uint32_t var = static_cast<uint32_t>(e < 0 ? -e : e) - 1;
    assign_.at(var) = e < 0 ? -1 : 1;
    level_[var] = level();
    trail_.push_back(e);
    return true;
}
bool Solver::unit() {
    grow();
    auto clause = [this](ELits const &c) {
        int u = 0;
        for (auto l : c) {
            int v = val(l);
            if (v > 0) return true;
            if (v == 0 && l != u) { if (u != 0) return true; u = l; }
        }
        if (u == 0) { conflict_ = true; return false; }
        return assign(u);
    };
    auto weight = [this](WConstraint const &w) {
        int64_t mn = 0, mx = 0;
        bool open = false;
        for (auto &x : w.lits) {
            int v = val(x.lit);
            if (v > 0) { mn += x.weight; mx += x.weight; }
            else if (v == 0) { open = true; (x.weight > 0 ? mx : mn) += x.weight; }
        }
        bool holds, fails;
        if (w.eq) { holds = !open && mn == w.bound; fails = mn > w.bound || mx < w.bound || (!open && mn != w.bound); }
        else { holds = mn >= w.bound; fails = mx < w.bound; }
        if (w.dir <= 0 && holds && !assign(w.con)) return false;
        if (w.dir >= 0 && fails && !assign(-w.con)) return false;
        int c = val(w.con);
        if (w.eq || !open || c == 0) return true;
        if (c > 0 && w.dir >= 0) {
            for (auto &x : w.lits) {
                if (val(x.lit) == 0 && mx - std::abs(x.weight) < w.bound && x.weight != 0) { if (!assign(x.weight > 0 ? x.lit : -x.lit)) return false; return true; }
            }
        }
        if (c < 0 && w.dir <= 0) {
            for (auto &x : w.lits) {
                if (val(x.lit) == 0 && mn + std::abs(x.weight) >= w.bound && x.weight != 0) { if (!assign(x.weight > 0 ? -x.lit : x.lit)) return false; return true; }
            }
        }
        return true;
    };
    for (;;) {
        size_t n = trail_.size();
        for (auto *db : {&ctx_->clauses, &ctx_->staticClauses, &ctx_->volatileClauses, &ctx_->facade->record_}) {
            for (size_t i = 0; i < db->size(); ++i) if (!clause((*db)[i])) return false;
        }
        for (auto *db : {&ctx_->weights, &ctx_->staticWeights}) {
            for (size_t i = 0; i < db->size(); ++i) if (!weight((*db)[i])) return false;
        }
        if (trail_.size() == n) return true;
    }
}
bool Solver::unfounded() {
    auto &rules = ctx_->rules;
    std::vector<char> found(ctx_->vars, 0);
    auto possible = [&](int l) {
        if (val(l) < 0) return false;
        if (l < 0) return true;
        uint32_t v = static_cast<uint32_t>(l) - 1;
        return v >= ctx_->progAtom.size() || !ctx_->progAtom[v] || found[v];
    };
    for (bool change = true; change;) {
        change = false;
        for (auto &r : rules) {
            bool any = false;
            for (auto h : r.head) if (!found[h - 1] && val(h) >= 0) any = true;
            if (!any) continue;
            bool ok = true;
            if (!r.sum) { for (auto l : r.body) if (!possible(l)) { ok = false; break; } }
            else {
                int64_t s = 0;
                for (auto &x : r.wbody) {
                    if (x.weight > 0 ? possible(x.lit) : val(x.lit) > 0) s += x.weight;
                }
                ok = s >= r.bound;
            }
            if (ok) for (auto h : r.head) if (val(h) >= 0 && !found[h - 1]) { found[h - 1] = 1; change = true; }
        }
    }
    for (uint32_t v = 0; v < ctx_->progAtom.size(); ++v) {
        if (ctx_->progAtom[v] && !found[v] && val(static_cast<int>(v) + 1) >= 0 && !assign(-(static_cast<int>(v) + 1))) return false;
    }
    return true;
}
bool Solver::propagate() {
    for (;;) {
        if (conflict_) return false;
        size_t n = trail_.size();
        if (!unit() || !unfounded()) return false;
        if (n == trail_.size()) return true;
    }
}
bool Solver::fixpoint() {
    for (;;) {
        if (!propagate()) return false;
        bool again = false;
        for (size_t p = 0; p < props_.size() && !again; ++p) {
            ELits changes;
            while (props_[p].head < trail_.size()) {
                int l = trail_[props_[p].head++];
                if (props_[p].watched.count(l)) changes.push_back(l);
            }
            if (!changes.empty()) {
                auto &seen = props_[p].seen[level()];
                seen.insert(seen.end(), changes.begin(), changes.end());
                size_t n = trail_.size();
                Control c(*this, p);
                Lock l(props_[p].init->lock());
                props_[p].init->propagator()->propagate(c, Potassco::toSpan(changes));
                if (conflict_) return false;
                again = c.dirty || trail_.size() != n;
                if (props_[p].head < trail_.size()) again = true;
            }
        }
        if (again) continue;
        for (size_t p = 0; p < props_.size() && !again; ++p) {
            if (!(props_[p].init->checkMode() & ClingoPropagatorCheck_t::Fixpoint)) continue;
            if (props_[p].lastCheck == trail_.size()) continue;
            props_[p].lastCheck = trail_.size();
            props_[p].checked.insert(level());
            size_t n = trail_.size();
            Control c(*this, p);
            Lock l(props_[p].init->lock());
            props_[p].init->propagator()->check(c);
            if (conflict_) return false;
            again = c.dirty || trail_.size() != n;
        }
        if (!again) return true;
    }
}
bool Solver::checkTotal(bool &changed) {
    for (size_t p = 0; p < props_.size(); ++p) {
        if (!(props_[p].init->checkMode() & ClingoPropagatorCheck_t::Total)) continue;
        props_[p].checked.insert(level());
        size_t n = numVars();
        Control c(*this, p);
        Lock l(props_[p].init->lock());
        props_[p].init->propagator()->check(c);
        if (conflict_) return false;
        if (c.dirty || n != numVars()) {
            if (!propagate()) return false;
            if (unassigned() != 0) { changed = true; return true; }
        }
    }
    return true;
}
void Solver::decide(int e) {
    levelStart_.push_back(static_cast<uint32_t>(trail_.size()));
    decision_.push_back(e);
    assign(e);
}
void Solver::undoLevel() {
    uint32_t lev = level();
    for (size_t p = 0; p < props_.size(); ++p) {
        auto &pr = props_[p];
        auto it = pr.seen.find(lev);
        bool has = it != pr.seen.end() && !it->second.empty();
        bool chk = pr.checked.count(lev) && pr.init->undoMode() == ClingoPropagatorUndo_t::Always;
        if (has || chk) {
            ELits changes;
            if (has) changes = it->second;
            Control c(*this, p, true);
            Lock l(pr.init->lock());
            pr.init->propagator()->undo(c, Potassco::toSpan(changes));
        }
        pr.seen.erase(lev);
        pr.checked.erase(lev);
        pr.head = std::min<size_t>(pr.head, levelStart_.back());
        pr.lastCheck = static_cast<size_t>(-1);
    }
    while (trail_.size() > levelStart_.back()) {
        int l = trail_.back();
        assign_[static_cast<uint32_t>(l < 0 ? -l : l) - 1] = 0;
        trail_.pop_back();
    }
    levelStart_.pop_back();
    decision_.pop_back();
}
bool Solver::resolve() {
    ++nConflicts;
    for (;;) {
        if (level() <= root_) return false;
        int d = decision_.back();
        undoLevel();
        conflict_ = false;
        if (assign(-d)) return true;
    }
}
bool Solver::stable() const {
    if (!ctx_->disjunctive) return true; // unfounded() is exact
    std::vector<int> T;
    for (uint32_t v = 0; v < ctx_->progAtom.size(); ++v) if (ctx_->progAtom[v] && val(int(v) + 1) > 0) T.push_back(int(v) + 1);
    if (T.size() > 24) throw std::runtime_error("miniclasp: program too large");
    std::vector<int> pos(ctx_->vars, -1);
    for (size_t i = 0; i < T.size(); ++i) pos[T[i] - 1] = int(i);
    uint32_t full = T.empty() ? 0 : (uint32_t(1) << T.size()) - 1;
    for (uint32_t m = 0; m < full; ++m) {
        auto in = [&](int l) { // truth in the smaller interpretation for the reduct
            if (l < 0) return val(l) > 0;
            return pos[l - 1] >= 0 ? ((m >> pos[l - 1]) & 1) != 0 : val(l) > 0;
        };
        bool model = true;
        for (auto &r : ctx_->rules) {
            bool b = true;
            if (!r.sum) { for (auto l : r.body) if (!in(l)) { b = false; break; } }
            else { int64_t s = 0; for (auto &x : r.wbody) if (in(x.lit)) s += x.weight; b = s >= r.bound; }
            if (!b) continue;
            if (r.choice) { for (auto h : r.head) if (val(h) > 0 && !in(h)) { model = false; break; } }
            else { bool h = false; for (auto x : r.head) if (in(x)) h = true; model = h; }
            if (!model) break;
        }
        if (model) return false;
    }
    return true;
}
bool Solver::acyclic() const {
    std::map<int, std::set<int>> g;
    for (auto &e : ctx_->edges) {
        bool ok = true;
        for (auto l : e.cond) if (val(l) < 0) ok = false;
        if (ok) g[e.s].insert(e.t);
    }
    std::map<int, int> st;
    std::function<bool(int)> dfs = [&](int x) {
        st[x] = 1;
        auto it = g.find(x);
        if (it != g.end()) for (int y : it->second) { if (st[y] == 1) return false; if (st[y] == 0 && !dfs(y)) return false; }
        st[x] = 2;
        return true;
    };
    for (auto &x : g) if (st[x.first] == 0 && !dfs(x.first)) return false;
    return true;
}
// }}}
// {{{ SharedContext
SharedContext::SharedContext() {}
Var SharedContext::addVar(Var_t::Value) {
    Var v = vars++;
    for (auto &s : solvers) s->grow();
    return v;
}
ClauseCreator::Result ClauseCreator::end(unsigned) {
    s_->ctx_->staticClauses.push_back(lits_);
    int open = 0, unit = 0;
    bool sat = false;
    for (auto l : lits_) {
        int v = s_->val(l);
        if (v > 0) sat = true;
        if (v == 0 && l != unit) { ++open; unit = l; }
    }
    if (!sat && open == 0) s_->conflict_ = true;
    if (!sat && open == 1) s_->assign(unit);
    return {!s_->conflict_};
}
WeightConstraint::Result WeightConstraint::create(Solver &s, Literal con, WeightLitVec const &lits, int bound, uint32_t flags) {
    WConstraint w;
    w.con = encodeLit(con);
    for (auto &x : lits) w.lits.push_back({encodeLit(x.first), x.second});
    w.bound = bound;
    w.eq = (flags & create_eq_bound) != 0;
    w.dir = (flags & create_only_bfb) ? -1 : (flags & create_only_btb) ? 1 : 0;
    s.ctx_->staticWeights.push_back(std::move(w));
    return {s.propagate()};
}
bool Enumerator::commitClause(LitVec const &clause) const {
    ELits c;
    for (auto l : clause) c.push_back(encodeLit(l));
    facade->ctx.volatileClauses.push_back(c);
    return true;
}
// }}}
// {{{ LogicProgram
namespace Asp {
using Potassco::begin;
using Potassco::end;
LogicProgram &LogicProgram::addRule(Potassco::Head_t ht, Potassco::AtomSpan const &head, Potassco::LitSpan const &body) {
    Rule r;
    r.choice = ht == Potassco::Head_t::Choice;
    r.head.assign(begin(head), end(head));
    r.sum = false;
    r.body.assign(begin(body), end(body));
    r.bound = 0;
    for (auto h : r.head) { touch_(int(h)); atoms_[h].defined = true; }
    for (auto l : r.body) touch_(l);
    rules_.push_back(std::move(r));
    return *this;
}
LogicProgram &LogicProgram::addRule(Potassco::Head_t ht, Potassco::AtomSpan const &head, Potassco::Weight_t bound, Potassco::WeightLitSpan const &body) {
    Rule r;
    r.choice = ht == Potassco::Head_t::Choice;
    r.head.assign(begin(head), end(head));
    r.sum = true;
    r.bound = bound;
    for (auto &x : body) r.wbody.push_back({x.lit, x.weight});
    for (auto h : r.head) { touch_(int(h)); atoms_[h].defined = true; }
    for (auto &l : r.wbody) touch_(l.lit);
    rules_.push_back(std::move(r));
    return *this;
}
LogicProgram &LogicProgram::addMinimize(Potassco::Weight_t prio, Potassco::WeightLitSpan const &lits) {
    auto &m = min_[prio];
    for (auto &x : lits) { touch_(x.lit); m.push_back({x.lit, x.weight}); }
    return *this;
}
LogicProgram &LogicProgram::removeMinimize() { min_.clear(); return *this; }
LogicProgram &LogicProgram::addProject(Potassco::AtomSpan const &atoms) {
    hasProject_ = true;
    for (auto a : atoms) { project_.insert(a); show_[a] |= out_projected; }
    return *this;
}
LogicProgram &LogicProgram::removeProject() {
    hasProject_ = false;
    project_.clear();
    for (auto &x : show_) x.second &= ~unsigned(out_projected);
    return *this;
}
LogicProgram &LogicProgram::addOutput(Potassco::StringSpan const &str, Potassco::LitSpan const &cond) {
    Out o{std::string(str.first, str.size), {begin(cond), end(cond)}};
    if (o.cond.size() == 1 && o.cond[0] > 0) show_[uint32_t(o.cond[0])] |= out_shown;
    for (auto l : o.cond) touch_(l);
    outputs_.push_back(std::move(o));
    return *this;
}
LogicProgram &LogicProgram::addAcycEdge(uint32_t s, uint32_t t, Potassco::LitSpan const &cond) {
    for (auto l : cond) touch_(l);
    edges_.push_back({int(s), int(t), {begin(cond), end(cond)}});
    return *this;
}
LogicProgram &LogicProgram::addDomHeuristic(Potassco::Atom_t a, Potassco::Heuristic_t t, int bias, unsigned prio, Potassco::LitSpan const &cond) {
    heus_.push_back({a, unsigned(t), bias, prio, {begin(cond), end(cond)}});
    return *this;
}
LogicProgram &LogicProgram::addAssumption(Potassco::LitSpan const &lits) {
    for (auto l : lits) { touch_(l); assume_.push_back(l); }
    return *this;
}
LogicProgram &LogicProgram::addExternal(Potassco::Atom_t a, Potassco::Value_t v) {
    auto &x = atoms_[a];
    if (x.released) return *this;
    if (v == Potassco::Value_t::Release) { x.released = true; x.external = false; x.value = Potassco::Value_t::False; }
    else { x.external = true; x.value = v; }
    extLog_.emplace_back(a, v);
    return *this;
}
Potassco::Id_t LogicProgram::newCondition(Potassco::LitSpan const &cond) {
    if (cond.size == 0) return 0;
    if (cond.size == 1) { touch_(cond[0]); return static_cast<Potassco::Id_t>(cond[0]); }
    std::vector<int> key(begin(cond), end(cond));
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = conds_.find(key);
    if (it != conds_.end()) return it->second;
    uint32_t a = nextCond_++;
    conds_.emplace(key, a);
    addRule(Potassco::Head_t::Disjunctive, Potassco::toSpan(&a, 1), cond);
    return a;
}
void LogicProgram::startStep() {
    ended_ = false;
    assume_.clear();
}
Literal LogicProgram::getLiteral(Potassco::Id_t id, MapLit_t) const {
    int lit = static_cast<int>(id);
    bool neg = lit < 0;
    if (lit == 0) return lit_true();
    auto it = atoms_.find(static_cast<uint32_t>(neg ? -lit : lit));
    if (it == atoms_.end() || (it->second.var == 0 && !it->second.fact)) return neg ? lit_true() : lit_false();
    Literal l(it->second.var, false);
    return neg ? ~l : l;
}
void LogicProgram::extractCore(LitVec const &core, Potassco::LitVec &out) const {
    out.clear();
    std::set<int> c;
    for (auto l : core) c.insert(encodeLit(l));
    for (auto l : assume_) if (c.count(elit(l))) out.push_back(l);
}
bool LogicProgram::endProgram() {
    if (ended_) return ctx_.ok;
    ended_ = true;
    for (auto &x : atoms_) x.second.defined = false;
    for (auto &r : rules_) {
        for (auto h : r.head) atoms_[h].defined = true;
        if (!r.choice && r.head.size() == 1 && !r.sum && r.body.empty()) atoms_[r.head[0]].fact = true;
    }
    for (auto t : theory_) if (t->atom() != 0 && !atoms_[t->atom()].defined) theoryFree_.insert(t->atom());
    for (auto &x : atoms_) {
        if (x.second.defined) x.second.external = false;
        if (x.second.var == 0 && !x.second.fact) x.second.var = ctx_.addVar(Var_t::Atom);
    }
    // translate
    ctx_.clauses.clear();
    ctx_.weights.clear();
    ctx_.rules.clear();
    ctx_.edges.clear();
    ctx_.disjunctive = false;
    static_assert(sizeof(int) == 4, "");
    std::map<uint32_t, ELits> support;
    auto &bodies = bodyVar;
    auto conj = [&](ELits b) -> int {
        std::sort(b.begin(), b.end());
        b.erase(std::unique(b.begin(), b.end()), b.end());
        b.erase(std::remove(b.begin(), b.end(), 1), b.end());
        for (auto l : b) if (l == -1) return -1;
        if (b.empty()) return 1;
        if (b.size() == 1) return b[0];
        auto it = bodies.find(b);
        if (it == bodies.end()) it = bodies.emplace(b, int(ctx_.addVar(Var_t::Body)) + 1).first;
        int v = it->second;
        ELits big{v};
        for (auto l : b) { ctx_.clauses.push_back({-v, l}); big.push_back(-l); }
        ctx_.clauses.push_back(big);
        return v;
    };
    auto sum = [&](std::vector<EWLit> const &lits, int64_t bound) -> int {
        std::pair<int64_t, std::vector<std::pair<int, int>>> key;
        key.first = bound;
        for (auto &x : lits) key.second.emplace_back(x.lit, x.weight);
        auto it = sumVar.find(key);
        if (it == sumVar.end()) it = sumVar.emplace(key, int(ctx_.addVar(Var_t::Body)) + 1).first;
        WConstraint w;
        w.con = it->second;
        w.lits = lits;
        w.bound = bound;
        ctx_.weights.push_back(w);
        return w.con;
    };
    for (auto &r : rules_) {
        ERule e;
        e.choice = r.choice;
        e.sum = r.sum;
        e.bound = r.bound;
        for (auto h : r.head) e.head.push_back(elit(int(h)));
        for (auto l : r.body) e.body.push_back(elit(l));
        for (auto &x : r.wbody) e.wbody.push_back({elit(x.lit), x.weight});
        int b = r.sum ? sum(e.wbody, r.bound) : conj(e.body);
        if (!r.choice) {
            ELits c = e.head;
            c.push_back(-b);
            ctx_.clauses.push_back(c);
        }
        if (!r.choice && e.head.size() > 1) ctx_.disjunctive = true;
        for (size_t i = 0; i < e.head.size(); ++i) {
            int s = b;
            if (!r.choice && e.head.size() > 1) {
                ELits x{b};
                for (size_t j = 0; j < e.head.size(); ++j) if (e.head[j] != e.head[i]) x.push_back(-e.head[j]);
                s = conj(x);
            }
            support[uint32_t(e.head[i])].push_back(s);
        }
        ctx_.rules.push_back(std::move(e));
    }
    ctx_.progAtom.assign(ctx_.vars, 0);
    extLits.clear();
    for (auto &x : atoms_) {
        int e = elit(int(x.first));
        if (e == 1 || (theoryFree_.count(x.first) && !x.second.defined)) continue;
        if (x.second.external) {
            // as clasp, values of externals are assumed and never fixed
            if (x.second.value == Potassco::Value_t::True) extLits.push_back(e);
            else if (x.second.value == Potassco::Value_t::False) extLits.push_back(-e);
            continue;
        }
        ctx_.progAtom[uint32_t(e) - 1] = 1;
        ELits c = support[uint32_t(e)];
        c.push_back(-e);
        ctx_.clauses.push_back(c);
    }
    for (auto &x : edges_) {
        ELits c;
        for (auto l : x.cond) c.push_back(elit(l));
        ctx_.edges.push_back({x.s, x.t, c});
    }
    ctx_.output.preds.clear();
    for (auto &o : outputs_) {
        ELits c;
        for (auto l : o.cond) c.push_back(elit(l));
        ctx_.output.preds.push_back({o.name, c});
    }
    for (auto &s : ctx_.solvers) s->reset();
    if (!ctx_.master()->propagate()) ctx_.ok = false;
    return ctx_.ok;
}
} // namespace Asp
// }}}
// {{{ Config
namespace Cli {
enum Kind { k_str = 0, k_int = 1, k_models = 2, k_par = 3, k_enum = 4, k_opt = 5, k_proj = 6, k_limit = 7, k_bool = 8 };
ClaspCliConfig::KeyType ClaspCliConfig::add(KeyType parent, char const *name, char const *help, char const *value, int kind) {
    KeyType id = static_cast<KeyType>(nodes.size());
    Node n;
    n.name = name;
    n.help = help;
    if (value) { n.hasValue = true; n.value = value; n.isSet = value[0] != 0; }
    n.kind = kind;
    nodes.push_back(n);
    if (id != parent) nodes[parent].sub.push_back(id);
    return id;
}
ClaspCliConfig::ClaspCliConfig() {
    KeyType root = add(0, "", "Options");
    KeyType asp = add(root, "asp", "Asp Options");
    KeyType solve = add(root, "solve", "Solve Options");
    KeyType solver = add(root, "solver", "Solver Options");
    add(root, "configuration", "Configure default configuration", "auto");
    add(root, "share", "Configure physical sharing of constraints", "auto");
    add(root, "stats", "Enable statistics", "0", k_int);
    add(asp, "eq", "Configure equivalence preprocessing", "3", k_int);
    add(asp, "supp_models", "Compute supported models", "0", k_bool);
    add(solve, "solve_limit", "Stop search after <n> conflicts or <m> restarts", "umax,umax", k_limit);
    add(solve, "parallel_mode", "Run parallel search with given number of threads", "1,compete", k_par);
    add(solve, "enum_mode", "Configure enumeration algorithm", "auto", k_enum);
    add(solve, "project", "Enable projective solution enumeration", "no", k_proj);
    add(solve, "models", "Compute at most %A models (0 for all)", "-1", k_models);
    add(solve, "opt_mode", "Configure optimization algorithm", "opt", k_opt);
    nodes[solver].isArray = true;
    KeyType s0 = add(solver, "0", "Solver Options");
    for (KeyType p : {solver, s0}) {
        add(p, "heuristic", "Configure decision heuristic", "auto,0");
        add(p, "seed", "Set random number generator's seed to %A", "1", k_int);
        add(p, "rand_freq", "Make random decisions with probability %A", "0.0");
        add(p, "sign_def", "Default sign: %A", "asp");
        add(p, "opt_strategy", "Configure optimization strategy", "bb,lin");
    }
}
namespace {
std::string norm(std::string s) { std::replace(s.begin(), s.end(), '-', '_'); return s; }
bool isNum(std::string const &s) { long x; return Potassco::string_cast<long>(s, x); }
}
ClaspCliConfig::KeyType ClaspCliConfig::getKey(KeyType k, char const *path) const {
    if (k >= nodes.size()) return KEY_INVALID;
    std::string p(path);
    if (p.empty() || p == ".") return k;
    auto dot = p.find('.');
    std::string head = norm(p.substr(0, dot));
    for (auto s : nodes[k].sub) {
        if (nodes[s].name == head) {
            if (nodes[k].isArray && isNum(head)) continue;
            return dot == std::string::npos ? s : getKey(s, p.c_str() + dot + 1);
        }
    }
    return KEY_INVALID;
}
ClaspCliConfig::KeyType ClaspCliConfig::getArrKey(KeyType k, unsigned i) const {
    if (k >= nodes.size() || !nodes[k].isArray) return KEY_INVALID;
    std::string n = std::to_string(i);
    for (auto s : nodes[k].sub) if (nodes[s].name == n) return s;
    return KEY_INVALID;
}
int ClaspCliConfig::getKeyInfo(KeyType k, int *nSub, int *arrLen, char const **help, int *nVal) const {
    if (k >= nodes.size()) return -1;
    auto &n = nodes[k];
    int sub = 0, arr = 0;
    for (auto s : n.sub) { if (n.isArray && isNum(nodes[s].name)) ++arr; else ++sub; }
    if (nSub) *nSub = sub;
    if (arrLen) *arrLen = n.isArray ? arr : -1;
    if (help) *help = n.help.c_str();
    if (nVal) *nVal = n.hasValue ? (n.isSet ? 1 : 0) : -1;
    return 1;
}
char const *ClaspCliConfig::getSubkey(KeyType k, uint32_t i) const {
    if (k >= nodes.size()) return nullptr;
    auto &n = nodes[k];
    for (auto s : n.sub) { if (n.isArray && isNum(nodes[s].name)) continue; if (i-- == 0) return nodes[s].name.c_str(); }
    return nullptr;
}
int ClaspCliConfig::getValue(KeyType k, std::string &value) const {
    if (k >= nodes.size()) return -2;
    if (!nodes[k].hasValue) return -1;
    value = nodes[k].value;
    return nodes[k].isSet ? int(value.size()) : -1;
}
int ClaspCliConfig::setValue(KeyType k, char const *v) {
    if (k >= nodes.size() || !nodes[k].hasValue) return -1;
    std::string s(v), a = s.substr(0, s.find(','));
    auto oneOf = [&](std::initializer_list<char const *> l) { for (auto x : l) if (a == x) return true; return false; };
    long n;
    switch (nodes[k].kind) {
        case k_int: if (!isNum(s)) return 0; break;
        case k_models: if (!Potassco::string_cast<long>(s, n) || n < -1) return 0; break;
        case k_par:
            if (!Potassco::string_cast<long>(a, n) || n < 1 || n > 64) return 0;
            if (s.find(',') == std::string::npos) s += ",compete";
            else if (s.substr(a.size()) != ",compete" && s.substr(a.size()) != ",split") return 0;
            break;
        case k_enum: if (!oneOf({"auto", "bt", "record", "domRec", "brave", "cautious", "query", "user"})) return 0; break;
        case k_opt: if (!oneOf({"opt", "enum", "optN", "ignore"})) return 0; break;
        case k_proj: if (!oneOf({"no", "auto", "show", "project", "1", "yes"})) return 0; break;
        case k_limit: break;
        case k_bool: { bool b; if (!Potassco::ProgramOptions::parseBool(s, b)) return 0; s = b ? "1" : "0"; break; }
        default: break;
    }
    nodes[k].value = s;
    nodes[k].isSet = true;
    return 1;
}
std::string ClaspCliConfig::get(char const *path) const { auto k = getKey(0, path); return k == KEY_INVALID ? "" : nodes[k].value; }
long ClaspCliConfig::getInt(char const *path) const { return std::strtol(get(path).c_str(), nullptr, 10); }
void ClaspCliConfig::addOptions(Potassco::ProgramOptions::OptionContext &root) {
    using namespace Potassco::ProgramOptions;
    OptionGroup g("Clasp Options");
    auto opt = [&](char const *name, char const *path, char const *arg) {
        g.addOptions()(name, (new Value([this, path](std::string const &, std::string const &v) { return setValue(getKey(0, path), v.c_str()) > 0; }))->arg(arg), nodes[getKey(0, path)].help.c_str());
    };
    opt("models,n", "solve.models", "<n>");
    opt("number,@5", "solve.models", "<n>");
    opt("enum-mode,e", "solve.enum_mode", "<arg>");
    opt("opt-mode", "solve.opt_mode", "<arg>");
    opt("project", "solve.project", "<arg>");
    opt("parallel-mode,t", "solve.parallel_mode", "<n>");
    opt("solve-limit", "solve.solve_limit", "<n>");
    opt("configuration", "configuration", "<arg>");
    opt("heuristic", "solver.heuristic", "<arg>");
    opt("seed", "solver.seed", "<n>");
    opt("sign-def", "solver.sign_def", "<arg>");
    opt("rand-freq", "solver.rand_freq", "<arg>");
    opt("opt-strategy", "solver.opt_strategy", "<arg>");
    opt("eq", "asp.eq", "<n>");
    opt("share", "share", "<arg>");
    g.addOptions()("stats,s", (new Value([this](std::string const &, std::string const &v) { return setValue(getKey(0, "stats"), v.empty() ? "1" : v.c_str()) > 0; }))->flag(), "Enable statistics");
    root.add(g);
}
} // namespace Cli
// }}}
// {{{ Statistics
Statistics::Key_t Statistics::mk(Potassco::Statistics_t t, bool w) {
    nodes_.emplace_back();
    nodes_.back().type = t;
    nodes_.back().writable = w;
    return nodes_.size() - 1;
}
Statistics::Statistics() { mk(Potassco::Statistics_t::Map, true); }
std::size_t Statistics::size(Key_t key) const {
    auto &x = n(key);
    if (x.type == Potassco::Statistics_t::Map) return x.map.size();
    if (x.type == Potassco::Statistics_t::Array) return x.arr.size();
    return 0;
}
Statistics::Key_t Statistics::at(Key_t k, std::size_t i) const {
    auto &x = n(k);
    if (x.type != Potassco::Statistics_t::Array) throw std::logic_error("bad access");
    return x.arr.at(i);
}
Statistics::Key_t Statistics::push(Key_t k, Potassco::Statistics_t t) {
    if (n(k).type != Potassco::Statistics_t::Array || !n(k).writable) throw std::logic_error("bad access");
    Key_t c = mk(t, true);
    n(k).arr.push_back(c);
    return c;
}
char const *Statistics::key(Key_t k, std::size_t i) const {
    auto &x = n(k);
    if (x.type != Potassco::Statistics_t::Map) throw std::logic_error("bad access");
    return x.map.at(i).first.c_str();
}
bool Statistics::find(Key_t k, char const *el, Key_t *out) const {
    auto &x = n(k);
    if (x.type != Potassco::Statistics_t::Map) throw std::logic_error("bad access");
    for (auto &y : x.map) if (y.first == el) { if (out) *out = y.second; return true; }
    return false;
}
Statistics::Key_t Statistics::get(Key_t k, char const *p) const {
    Key_t r;
    std::string s(p);
    auto dot = s.find('.');
    if (find(k, s.c_str(), &r)) return r;
    if (dot != std::string::npos && find(k, s.substr(0, dot).c_str(), &r)) return get(r, p + dot + 1);
    throw std::out_of_range("Statistics: invalid key");
}
Statistics::Key_t Statistics::add(Key_t k, char const *name, Potassco::Statistics_t t) {
    if (n(k).type != Potassco::Statistics_t::Map || !n(k).writable) throw std::logic_error("bad access");
    Key_t r;
    if (find(k, name, &r)) {
        if (!(n(r).type == t)) throw std::logic_error("redefinition");
        return r;
    }
    r = mk(t, true);
    n(k).map.emplace_back(name, r);
    return r;
}
double Statistics::value(Key_t k) const {
    if (n(k).type != Potassco::Statistics_t::Value) throw std::logic_error("bad access");
    return n(k).value;
}
void Statistics::set(Key_t k, double v) {
    if (n(k).type != Potassco::Statistics_t::Value || !n(k).writable) throw std::logic_error("bad access");
    n(k).value = v;
}
Statistics::Key_t Statistics::path_(std::vector<std::string> const &path, Potassco::Statistics_t t) {
    Key_t k = 0;
    for (size_t i = 0; i < path.size(); ++i) {
        Key_t r;
        if (!find(k, path[i].c_str(), &r)) {
            r = mk(i + 1 == path.size() ? t : Potassco::Statistics_t(Potassco::Statistics_t::Map), false);
            n(k).map.emplace_back(path[i], r);
        }
        k = r;
    }
    return k;
}
void Statistics::setValue(std::vector<std::string> const &path, double v) { auto k = path_(path, Potassco::Statistics_t::Value); n(k).value = v; }
void Statistics::setArray(std::vector<std::string> const &path, std::vector<double> const &v) {
    auto k = path_(path, Potassco::Statistics_t::Array);
    while (n(k).arr.size() > v.size()) n(k).arr.pop_back();
    while (n(k).arr.size() < v.size()) { auto c = mk(Potassco::Statistics_t::Value, false); n(k).arr.push_back(c); }
    for (size_t i = 0; i < v.size(); ++i) n(n(k).arr[i]).value = v[i];
}
// }}}
// {{{ ClaspFacade
ClaspFacade::ClaspFacade() {
    ctx.facade = this;
    ctx.solvers.emplace_back(new Solver(ctx, 0));
    enum_.facade = this;
}
ClaspFacade::~ClaspFacade() = default;
Asp::LogicProgram &ClaspFacade::startAsp(Cli::ClaspCliConfig &config, bool allowUpdate) {
    config_ = &config;
    incremental_ = allowUpdate;
    prg_.reset(new Asp::LogicProgram(ctx));
    update(true);
    return *prg_;
}
ProgramBuilder &ClaspFacade::update(bool updateConfig) {
    if (solving()) throw std::logic_error("Solving is still active!");
    if (updateConfig) {
        size_t n = static_cast<size_t>(std::max(1L, config_->getInt("solve.parallel_mode")));
        while (ctx.solvers.size() > n) ctx.solvers.pop_back();
        while (ctx.solvers.size() < n) ctx.solvers.emplace_back(new Solver(ctx, static_cast<uint32_t>(ctx.solvers.size())));
    }
    if (solved_) {
        if (!incremental_) throw std::logic_error("Program updates not supported!");
        solved_ = prepared_ = false;
        ctx.volatileClauses.clear();
        record_.clear();
        prg_->startStep();
    }
    return *prg_;
}
bool ClaspFacade::prepare(EnumMode) {
    prg_->endProgram();
    prepared_ = true;
    auto &lp = *prg_;
    mins_.clear();
    std::map<int, std::vector<EWLit>, std::greater<int>> m;
    for (auto &x : lp.min_) { auto &v = m[x.first]; for (auto &y : x.second) v.push_back({lp.elit(y.lit), y.weight}); }
    for (auto &x : ctx.extraMin) m[x.first].push_back(x.second);
    enum_.mini.prios.clear();
    for (auto &x : m) { mins_.emplace_back(x.first, x.second); }
    optMode_ = config_->get("solve.opt_mode");
    optMode_ = optMode_.substr(0, optMode_.find(','));
    if (optMode_ == "ignore") mins_.clear();
    for (auto &x : mins_) enum_.mini.prios.push_back(x.first);
    enumMode_ = config_->get("solve.enum_mode");
    limit_ = config_->getInt("solve.models");
    auto pm = config_->get("solve.project");
    project_ = pm != "no";
    ctx.output.mode = project_ && lp.hasProject_ && pm != "show" ? ProjectMode_t::Explicit : ProjectMode_t::Output;
    if (lp.hasProject_ && pm == "no") ctx.output.mode = ProjectMode_t::Output;
    projVars_.clear();
    if (project_) {
        std::set<int> vs;
        if (ctx.output.mode == ProjectMode_t::Explicit) for (auto a : lp.project_) vs.insert(lp.elit(int(a)));
        else for (auto &o : lp.outputs_) for (auto l : o.cond) vs.insert(std::abs(lp.elit(l)));
        projVars_.assign(vs.begin(), vs.end());
    }
    conflictLimit_ = -1;
    auto lim = config_->get("solve.solve_limit");
    if (lim.compare(0, 4, "umax") != 0 && !lim.empty()) conflictLimit_ = std::strtol(lim.c_str(), nullptr, 10);
    return ctx.ok;
}
bool ClaspFacade::solving() const { return status_ == st_run || status_ == st_model; }
std::vector<int64_t> ClaspFacade::cost(Solver const &s) const {
    std::vector<int64_t> c;
    for (auto &m : mins_) {
        int64_t x = 0;
        for (auto &l : m.second) if (s.val(l.lit) > 0) x += l.weight;
        c.push_back(x);
    }
    return c;
}
void ClaspFacade::startSearch(unsigned mode) {
    ++gen_;
    mode_ = mode;
    error_ = nullptr;
    status_ = st_run;
    exhausted_ = stopped_ = modelReady_ = false;
    interrupt_ = pending_;
    pending_ = 0;
    if (stepVar_ == 0) stepVar_ = static_cast<int>(ctx.addVar(Var_t::Body)) + 1;
    summary_.result = Result();
    summary_.hasModel = summary_.hasCore = false;
    summary_.core.clear();
    summary_.numEnum = summary_.numOptimal = 0;
    summary_.step++;
    record_.clear();
    haveBest_ = proven_ = false;
    best_.clear();
    optPhase_ = false;
    haveCons_ = false;
    cons_.clear();
    enum_.opt = !mins_.empty();
    model_ = Model();
    model_.ctx = &enum_;
    assumptions_.clear();
    for (auto l : prg_->assume_) assumptions_.push_back(prg_->elit(l));
    bool cons = enumMode_ == "brave" || enumMode_ == "cautious";
    if (limit_ < 0) limit_ = mins_.empty() && !cons ? 1 : 0;
    for (auto &s : ctx.solvers) {
        s->reset();
        s->nConflicts = s->nChoices = 0;
        auto &props = config_->props;
        while (s->props_.size() < props.size()) { s->props_.emplace_back(); s->props_.back().init = props[s->props_.size() - 1]; }
        for (auto &p : s->props_) {
            p.head = 0;
            p.seen.clear();
            p.checked.clear();
            p.lastCheck = static_cast<size_t>(-1);
        }
    }
    for (auto &s : ctx.solvers) {
        for (auto &p : s->props_) {
            auto &ch = p.init->changes();
            for (size_t i = p.lastLevel == static_cast<uint32_t>(-1) ? 0 : p.lastLevel; i < ch.size(); ++i) {
                if (ch[i].solver >= 0 && ch[i].solver != int(s->id())) continue;
                if (ch[i].add) p.watched.insert(ch[i].lit); else p.watched.erase(ch[i].lit);
            }
            p.lastLevel = static_cast<uint32_t>(ch.size());
        }
    }
    if (!ctx.ok) exhausted_ = true;
}
bool ClaspFacade::commit(Solver &s) {
    bool brave = enumMode_ == "brave", cautious = enumMode_ == "cautious";
    model_.num++;
    model_.sId = s.id();
    model_.values.assign(s.assign_.begin(), s.assign_.end());
    model_.type = brave ? Model::Brave : cautious ? Model::Cautious : Model::Sat;
    model_.def.clear();
    model_.est.clear();
    if (brave || cautious) {
        std::set<int> t;
        for (auto &x : prg_->atoms_) { int e = prg_->elit(int(x.first)); if (s.val(e) > 0) t.insert(e); }
        if (!haveCons_) cons_ = t;
        else if (brave) cons_.insert(t.begin(), t.end());
        else { std::set<int> r; std::set_intersection(cons_.begin(), cons_.end(), t.begin(), t.end(), std::inserter(r, r.end())); cons_ = r; }
        haveCons_ = true;
        for (auto &x : prg_->atoms_) {
            int e = prg_->elit(int(x.first));
            bool in = cons_.count(e) > 0;
            if (e > 1) model_.values[uint32_t(e) - 1] = in ? 1 : -1;
            if (in && (brave || s.levelOf(e) == 0)) model_.def.insert(e);
            else if (brave ? !in && s.level_[uint32_t(e) - 1] != 0 : in) model_.est.insert(e);
        }
    }
    if (!mins_.empty()) {
        best_ = cost(s);
        haveBest_ = true;
        model_.costVec = best_;
        model_.costs = &model_.costVec;
        model_.opt = optPhase_;
    } else {
        model_.costs = nullptr;
        model_.opt = false;
    }
    summary_.numEnum++;
    if (model_.opt) summary_.numOptimal++;
    summary_.mod = &model_;
    summary_.hasModel = true;
    summary_.result.flags = Result::SAT;
    // exclude the model
    if (!projVars_.empty() || project_) {
        ELits c;
        for (auto v : projVars_) c.push_back(s.val(v) > 0 ? -v : v);
        record_.push_back(c);
    } else if (ctx.solvers.size() > 1) {
        ELits c;
        for (uint32_t v = 1; v < s.assign_.size(); ++v) c.push_back(s.assign_[v] > 0 ? -int(v + 1) : int(v + 1));
        record_.push_back(c);
    }
    bool more = true;
    if (ctx.handler) more = ctx.handler->onModel(s, model_);
    s.conflict_ = true;
    bool counts = mins_.empty() || optMode_ != "optN" || optPhase_;
    if (!more || (limit_ > 0 && counts && static_cast<long>(optPhase_ ? summary_.numOptimal : summary_.numEnum) >= limit_)) stopped_ = true;
    return more;
}
// one search step of one solver; returns true if a model has been found
bool ClaspFacade::stepThread(Solver &s) {
    if (!s.started_) {
        s.started_ = true;
        if (!s.fixpoint()) { exhausted_ = true; summary_.core.clear(); return false; }
        // as clasp, search above a step literal: nothing that depends on enumeration or bounds is fixed
        s.decide(stepVar_);
        s.root_ = s.level();
        if (!s.fixpoint()) { exhausted_ = true; return false; }
        auto root = prg_->extLits;
        root.insert(root.end(), assumptions_.begin(), assumptions_.end());
        for (auto a : root) {
            if (s.val(a) > 0) continue;
            if (s.val(a) < 0) { exhausted_ = true; return false; }
            s.decide(a);
            s.root_ = s.level();
            if (!s.fixpoint()) { exhausted_ = true; return false; }
        }
        s.root_ = s.level();
        return false;
    }
    if (s.hasConflict()) {
        if (!s.resolve()) { exhausted_ = true; return false; }
    }
    if (!s.fixpoint()) return false;
    if (s.unassigned() > 0) {
        ELits open;
        for (uint32_t v = 1; v < s.assign_.size(); ++v) if (s.assign_[v] == 0) open.push_back(int(v) + 1);
        int d = open[vp_choice("var", static_cast<unsigned>(open.size()))];
        if (vp_choice("sign", 2) == 0) d = -d;
        if (config_->heu) {
            Lock l(config_->heu->lock());
            ClingoAssignment a(s);
            int r = config_->heu->heuristic()->decide(s.id(), a, d);
            if (r != 0 && a.hasLit(r) && s.val(r) == 0) d = r;
        }
        ++s.nChoices;
        s.decide(d);
        s.fixpoint();
        return false;
    }
    // total assignment
    auto reject = [&]() { s.conflict_ = true; return false; };
    if (!s.stable() || !s.acyclic()) return reject();
    if (!mins_.empty()) {
        auto c = cost(s);
        if (optMode_ == "enum") { /* no bound */ }
        else if (optPhase_) { if (c != best_) return reject(); }
        else if (haveBest_ && !(c < best_)) return reject();
    }
    if (haveCons_) {
        bool changes = false;
        for (auto &x : prg_->atoms_) {
            int e = prg_->elit(int(x.first));
            bool in = cons_.count(e) > 0, t = s.val(e) > 0;
            if (enumMode_ == "brave" ? t && !in : in && !t) changes = true;
        }
        if (!changes) return reject();
    }
    bool changed = false;
    if (!s.checkTotal(changed)) return false;
    if (changed) return false;
    commit(s);
    return true;
}
bool ClaspFacade::advance(bool stopAtModel, size_t maxSteps) {
    while (status_ == st_run && maxSteps-- > 0) {
        try {
            if (interrupt_ != 0) {
                summary_.result.flags |= Result::EXT_INTERRUPT;
                summary_.result.signal = static_cast<uint8_t>(interrupt_);
                finish();
                return true;
            }
            size_t conf = 0;
            for (auto &s : ctx.solvers) conf += s->nConflicts;
            if (conflictLimit_ >= 0 && static_cast<long>(conf) > conflictLimit_) { stopped_ = true; }
            if (!exhausted_ && !stopped_) {
                auto &s = *ctx.solvers[vp_choice("thread", static_cast<unsigned>(ctx.solvers.size()))];
                if (stepThread(s)) {
                    if (stopAtModel) { status_ = st_model; return true; }
                }
            }
            if (exhausted_ && !mins_.empty() && optMode_ == "optN" && !optPhase_ && haveBest_ && !stopped_) {
                optPhase_ = true;
                model_.num = 0;
                exhausted_ = false;
                record_.clear();
                for (auto &s : ctx.solvers) {
                    while (s->level() > 0) s->undoLevel();
                    s->reset();
                    for (auto &p : s->props_) { p.head = 0; p.seen.clear(); p.checked.clear(); p.lastCheck = static_cast<size_t>(-1); }
                }
            } else if (exhausted_ || stopped_) {
                finish();
                return true;
            }
        } catch (...) {
            error_ = std::current_exception();
            finish();
            return true;
        }
    }
    return status_ != st_run;
}
void ClaspFacade::finish() {
    if (status_ == st_done || status_ == st_idle) return;
    status_ = st_done;
    solved_ = true;
    if (error_) summary_.result.flags = Result::UNKNOWN;
    else if (exhausted_) {
        summary_.result.flags |= Result::EXT_EXHAUST;
        if (summary_.hasModel && !mins_.empty() && (optMode_ == "opt" || optMode_.empty())) model_.opt = true;
        if (!summary_.hasModel) {
            summary_.result.flags |= Result::UNSAT;
            summary_.hasCore = true;
            for (auto a : assumptions_) summary_.core.push_back(decodeLit(a));
        }
    }
    for (auto &s : ctx.solvers) { try { while (s->level() > 0) s->undoLevel(); } catch (...) { if (!error_) error_ = std::current_exception(); } }
    record_.clear();
    auto vol = std::move(ctx.volatileClauses);
    ctx.volatileClauses.clear();
    for (auto &s : ctx.solvers) s->reset();
    if (!ctx.master()->propagate()) ctx.ok = false;
    size_t ch = 0, co = 0;
    for (auto &s : ctx.solvers) { ch += s->nChoices; co += s->nConflicts; }
    stats_.setValue({"problem", "lp", "atoms"}, double(prg_->atoms_.size()));
    stats_.setValue({"problem", "lp", "rules"}, double(prg_->rules_.size()));
    stats_.setValue({"solving", "solvers", "choices"}, double(ch));
    stats_.setValue({"solving", "solvers", "conflicts"}, double(co));
    stats_.setValue({"summary", "call"}, double(summary_.step - 1));
    stats_.setValue({"summary", "result"}, double(summary_.result.flags & 3));
    stats_.setValue({"summary", "exhausted"}, summary_.result.exhausted() ? 1 : 0);
    stats_.setValue({"summary", "models", "enumerated"}, double(summary_.numEnum));
    stats_.setValue({"summary", "models", "optimal"}, double(summary_.numOptimal));
    std::vector<double> costs;
    for (auto c : best_) costs.push_back(double(c));
    stats_.setArray({"summary", "costs"}, costs);
    stats_.setValue({"summary", "times", "total"}, 0);
    try { event(StepReady(summary_)); } catch (...) { if (!error_) error_ = std::current_exception(); }
}
ClaspFacade::SolveHandle ClaspFacade::solve(SolveMode_t mode) {
    if (solving()) throw std::logic_error("Solving is still active!");
    if (!prepared_) prepare(enum_volatile);
    startSearch(mode);
    SolveHandle h(this, gen_);
    if (mode == SolveMode_t::Default) {
        advance(false, static_cast<size_t>(-1));
        if (error_) { auto e = error_; error_ = nullptr; std::rethrow_exception(e); }
    }
    return h;
}
void ClaspFacade::cancelSolve() {
    if (solving()) {
        summary_.result.flags |= Result::EXT_INTERRUPT;
        summary_.result.signal = 9;
        finish();
    }
}
bool ClaspFacade::interrupt(int sig) {
    if (solving()) { interrupt_ = sig; return true; }
    pending_ = sig;
    return false;
}
void ClaspFacade::shutdown() {
    ctx.handler = nullptr;
    try { cancelSolve(); } catch (...) {}
}
Potassco::AbstractStatistics *ClaspFacade::getStats() const {
    if (solving() ) { /* user statistics are set up before the search starts */ }
    return &stats_;
}
ClaspFacade::SolveHandle::~SolveHandle() { if (f_ && f_->gen_ == gen_) { f_->cancelSolve(); f_->error_ = nullptr; } }
void ClaspFacade::SolveHandle::wait() const {
    if (f_->gen_ != gen_) return;
    if (f_->status_ == st_run) f_->advance((f_->mode_ & SolveMode_t::Yield) != 0, static_cast<size_t>(-1));
}
bool ClaspFacade::SolveHandle::ready() const { return waitFor(0); }
bool ClaspFacade::SolveHandle::waitFor(double timeout) const {
    if (f_->gen_ != gen_) return true;
    if (f_->status_ == st_run) {
        if (f_->mode_ & SolveMode_t::Async) {
            // how far does the search get before the caller looks?
            unsigned k = vp_choice("async", 3);
            size_t steps = k == 0 ? static_cast<size_t>(-1) : k == 1 ? 0 : 1;
            f_->advance((f_->mode_ & SolveMode_t::Yield) != 0, steps);
        } else if (timeout < 0) f_->advance((f_->mode_ & SolveMode_t::Yield) != 0, static_cast<size_t>(-1)); // nothing happens in the background
    }
    return f_->status_ != st_run;
}
Model const *ClaspFacade::SolveHandle::model() const {
    wait();
    if (f_->gen_ != gen_) return nullptr;
    if (f_->status_ == st_model) return &f_->model_;
    if (f_->error_) { auto e = f_->error_; std::rethrow_exception(e); }
    return nullptr;
}
ClaspFacade::Result ClaspFacade::SolveHandle::get() const {
    if (f_->gen_ == gen_) {
        wait(); // as clasp: up to the next model if models are yielded
        if (f_->error_) {
            // as clasp: the exception itself does not survive the asynchronous solve
            if ((f_->mode_ & SolveMode_t::Async) && !(f_->mode_ & SolveMode_t::Yield)) throw std::runtime_error("Asynchronous solve failed!");
            std::rethrow_exception(f_->error_);
        }
    }
    return f_->summary_.result;
}
void ClaspFacade::SolveHandle::cancel() const {
    if (f_->gen_ == gen_) f_->cancelSolve(); // an error is reported by get() and model()
}
void ClaspFacade::SolveHandle::resume() const {
    if (f_->gen_ == gen_ && f_->status_ == st_model) f_->status_ = st_run;
}
// }}}
// {{{ application
namespace Cli {
TextOutput::TextOutput(uint32_t verbosity, Format, char const *, char ifs) : verbosity_(verbosity), ifs_(ifs) {}
void TextOutput::run(char const *solver, char const *version, std::vector<std::string> const &in) {
    if (verbosity_ == 0) return;
    printf("%s version %s\n", solver, version);
    printf("Reading from %s%s\n", in.empty() ? "stdin" : in[0].c_str(), in.size() > 1 ? " ..." : "");
    printf("Solving...\n");
}
void TextOutput::model(OutputTable const &out, Model const &m) {
    if (verbosity_ > 0) printf("Answer: %llu\n", static_cast<unsigned long long>(m.num));
    printModelValues(out, m);
    if (m.costs && !m.costs->empty()) {
        printf("Optimization:");
        for (auto c : *m.costs) printf(" %lld", static_cast<long long>(c));
        printf("\n");
        if (m.opt && verbosity_ > 0) printf("OPTIMUM FOUND\n");
    }
    fflush(stdout);
}
void TextOutput::printModelValues(OutputTable const &out, Model const &m) {
    bool first = true;
    auto pr = [&](char const *s) { if (!first) putchar(ifs_); first = false; fputs(s, stdout); };
    for (auto &p : out.preds) {
        bool t = true;
        for (auto l : p.cond) if (!m.isTrue(decodeLit(l))) t = false;
        if (t) pr(p.name.c_str());
    }
    if (out.theory) for (char const *s = out.theory->first(m); s; s = out.theory->next()) pr(s);
    putchar('\n');
}
void TextOutput::result(ClaspFacade::Summary const &s) {
    char const *r = s.sat() ? (s.model() && s.model()->costs && s.result.exhausted() ? "OPTIMUM FOUND" : "SATISFIABLE") : s.unsat() ? "UNSATISFIABLE" : "UNKNOWN";
    printf("%s\n", r);
    fflush(stdout);
}
ClaspAppBase::~ClaspAppBase() = default;
bool ClaspAppBase::parsePositional(std::string const &s, std::string &out) {
    int n;
    out = Potassco::string_cast<int>(s, n) ? "number" : "file";
    return true;
}
void ClaspAppBase::initOptions(Potassco::ProgramOptions::OptionContext &root) {
    using namespace Potassco::ProgramOptions;
    claspConfig_.addOptions(root);
    OptionGroup basic("Basic Options");
    basic.addOptions()("file,f,@2", storeTo(claspAppOpts_.input)->composing(), "Input files")
        ("outf,@1", new Value([this](std::string const &, std::string const &v) { return Potassco::string_cast<int>(v, outf_); }), "Use {0=default|3=none} output")
        ("quiet,q,@1", (new Value([](std::string const &, std::string const &) { return true; }))->flag(), "Configure printing of models")
        ("time-limit", new Value([](std::string const &, std::string const &) { return true; }), "Set time limit");
    root.add(basic);
}
void ClaspAppBase::validateOptions(Potassco::ProgramOptions::OptionContext const &, Potassco::ProgramOptions::ParsedOptions const &, Potassco::ProgramOptions::ParsedValues const &) {}
Output *ClaspAppBase::createTextOutput(TextOptions const &o) { return new TextOutput(o.verbosity, o.format, o.catAtom, o.ifs); }
void ClaspAppBase::setup() {
    clasp_.reset(new ClaspFacade());
    if (outf_ != 3) out_.reset(createTextOutput({TextOutput::format_asp, verbose(), nullptr, ' '}));
}
void ClaspAppBase::run() {
    clasp_->ctx.setEventHandler(this);
    if (out_) out_->run(getName(), getVersion(), claspAppOpts_.input);
    run(*clasp_);
}
void ClaspAppBase::shutdown() {
    if (!clasp_) return;
    auto &s = clasp_->summary();
    if (s.step == 0) { setExitCode(E_UNKNOWN); return; }
    if (out_) out_->result(s);
    int code = 0;
    if (s.sat()) code |= E_SAT;
    if (s.result.exhausted()) code |= E_EXHAUST;
    if (s.result.interrupted()) code |= E_INTERRUPT;
    setExitCode(code);
}
void ClaspAppBase::onUnhandled() { setExitCode(E_ERROR); }
void ClaspAppBase::onEvent(Event const &) {}
bool ClaspAppBase::onModel(Solver const &, Model const &m) {
    if (out_) out_->model(clasp_->ctx.output, m);
    return true;
}
} // namespace Cli
// }}}
} // namespace Clasp
