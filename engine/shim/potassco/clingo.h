#ifndef VP_POTASSCO_CLINGO_H
#define VP_POTASSCO_CLINGO_H
#include <potassco/basic_types.h>
namespace Potassco {
class AbstractAssignment {
  public:
    using Value_t = Potassco::Value_t;
    using Lit_t = Potassco::Lit_t;
    virtual ~AbstractAssignment() = default;
    virtual uint32_t size() const = 0;
    virtual uint32_t unassigned() const = 0;
    virtual bool hasConflict() const = 0;
    virtual uint32_t level() const = 0;
    virtual uint32_t rootLevel() const = 0;
    virtual bool hasLit(Lit_t lit) const = 0;
    virtual Value_t value(Lit_t lit) const = 0;
    virtual uint32_t level(Lit_t lit) const = 0;
    virtual Lit_t decision(uint32_t) const = 0;
    virtual uint32_t trailSize() const = 0;
    virtual Lit_t trailAt(uint32_t) const = 0;
    virtual uint32_t trailBegin(uint32_t) const = 0;
    virtual uint32_t trailEnd(uint32_t lev) const { return lev < level() ? trailBegin(lev + 1) : trailSize(); }
    virtual bool isTotal() const { return unassigned() == 0; }
    virtual bool isFixed(Lit_t lit) const { return value(lit) != Value_t::Free && level(lit) == 0; }
    virtual bool isTrue(Lit_t lit) const { return value(lit) == Value_t::True; }
    virtual bool isFalse(Lit_t lit) const { return value(lit) == Value_t::False; }
};
class AbstractSolver {
  public:
    virtual ~AbstractSolver() = default;
    virtual Id_t id() const = 0;
    virtual AbstractAssignment const &assignment() const = 0;
    virtual bool addClause(LitSpan const &clause, Clause_t prop = Clause_t::Learnt) = 0;
    virtual Lit_t addVariable() = 0;
    virtual bool propagate() = 0;
    virtual bool hasWatch(Lit_t lit) const = 0;
    virtual void addWatch(Lit_t lit) = 0;
    virtual void removeWatch(Lit_t lit) = 0;
};
class AbstractPropagator {
  public:
    using ChangeList = LitSpan;
    virtual ~AbstractPropagator() = default;
    virtual void propagate(AbstractSolver &solver, ChangeList const &changes) = 0;
    virtual void undo(AbstractSolver const &solver, ChangeList const &undo) = 0;
    virtual void check(AbstractSolver &solver) = 0;
};
class AbstractHeuristic {
  public:
    using Lit = Lit_t;
    virtual ~AbstractHeuristic() = default;
    virtual Lit_t decide(Id_t solverId, AbstractAssignment const &assignment, Lit_t fallback) = 0;
};
} // namespace Potassco
#endif
