#ifndef VP_POTASSCO_THEORY_DATA_H
#define VP_POTASSCO_THEORY_DATA_H
#include <potassco/basic_types.h>
#include <deque>
#include <memory>
#include <set>
namespace Potassco {
class TheoryTerm {
  public:
    using iterator = Id_t const *;
    TheoryTerm() = default;
    explicit TheoryTerm(int num) : valid_{true}, type_{Theory_t::Number}, num_{num} {}
    explicit TheoryTerm(std::string name) : valid_{true}, type_{Theory_t::Symbol}, str_{std::move(name)} {}
    TheoryTerm(int cId, std::vector<Id_t> args) : valid_{true}, type_{Theory_t::Compound}, num_{cId}, args_{std::move(args)} {}
    bool valid() const { return valid_; }
    Theory_t type() const { return type_; }
    int number() const { check(Theory_t::Number); return num_; }
    char const *symbol() const { check(Theory_t::Symbol); return str_.c_str(); }
    bool isTuple() const { return type_ == Theory_t::Compound && num_ < 0; }
    bool isFunction() const { return type_ == Theory_t::Compound && num_ >= 0; }
    int compound() const { check(Theory_t::Compound); return num_; }
    Id_t function() const { if (!isFunction()) throw std::logic_error("Term is not a function"); return static_cast<Id_t>(num_); }
    Tuple_t tuple() const { if (!isTuple()) throw std::logic_error("Term is not a tuple"); return Tuple_t(num_); }
    uint32_t size() const { return static_cast<uint32_t>(args_.size()); }
    iterator begin() const { return args_.data(); }
    iterator end() const { return args_.data() + args_.size(); }
    IdSpan terms() const { return toSpan(args_.data(), args_.size()); }
  private:
    void check(Theory_t::E t) const { if (type_ != t) throw std::logic_error("Invalid term cast"); }
    bool valid_ = false;
    Theory_t type_ = Theory_t::Number;
    int num_ = 0;
    std::string str_;
    std::vector<Id_t> args_;
};
class TheoryElement {
  public:
    using iterator = Id_t const *;
    TheoryElement() = default;
    TheoryElement(std::vector<Id_t> terms, Id_t cond) : valid_{true}, terms_{std::move(terms)}, cond_{cond} {}
    bool valid() const { return valid_; }
    uint32_t size() const { return static_cast<uint32_t>(terms_.size()); }
    iterator begin() const { return terms_.data(); }
    iterator end() const { return terms_.data() + terms_.size(); }
    IdSpan terms() const { return toSpan(terms_.data(), terms_.size()); }
    Id_t condition() const { return cond_; }
    void setCondition(Id_t c) { cond_ = c; }
  private:
    bool valid_ = false;
    std::vector<Id_t> terms_;
    Id_t cond_ = 0;
};
class TheoryAtom {
  public:
    using iterator = Id_t const *;
    TheoryAtom(Id_t atom, Id_t term, std::vector<Id_t> elems) : atom_{atom}, term_{term}, elems_{std::move(elems)} {}
    TheoryAtom(Id_t atom, Id_t term, std::vector<Id_t> elems, Id_t op, Id_t rhs) : atom_{atom}, term_{term}, elems_{std::move(elems)}, guarded_{true}, op_{op}, rhs_{rhs} {}
    Id_t atom() const { return atom_; }
    Id_t term() const { return term_; }
    uint32_t size() const { return static_cast<uint32_t>(elems_.size()); }
    iterator begin() const { return elems_.data(); }
    iterator end() const { return elems_.data() + elems_.size(); }
    IdSpan elements() const { return toSpan(elems_.data(), elems_.size()); }
    Id_t const *guard() const { return guarded_ ? &op_ : nullptr; }
    Id_t const *rhs() const { return guarded_ ? &rhs_ : nullptr; }
  private:
    Id_t atom_, term_;
    std::vector<Id_t> elems_;
    bool guarded_ = false;
    Id_t op_ = 0, rhs_ = 0;
};
class TheoryData {
  public:
    static constexpr Id_t COND_DEFERRED = static_cast<Id_t>(-1);
    using atom_iterator = TheoryAtom const *const *;
    class Visitor {
      public:
        virtual ~Visitor() = default;
        virtual void visit(TheoryData const &data, Id_t termId, TheoryTerm const &t) = 0;
        virtual void visit(TheoryData const &data, Id_t elemId, TheoryElement const &e) = 0;
        virtual void visit(TheoryData const &data, TheoryAtom const &a) = 0;
    };
    enum VisitMode { visit_all, visit_current };
    TheoryTerm const &addTerm(Id_t id, int number) { return setTerm(id, TheoryTerm{number}); }
    TheoryTerm const &addTerm(Id_t id, char const *name) { return setTerm(id, TheoryTerm{std::string{name}}); }
    TheoryTerm const &addTerm(Id_t id, StringSpan const &name) { return setTerm(id, TheoryTerm{std::string{name.first, name.size}}); }
    TheoryTerm const &addTerm(Id_t id, Id_t func, IdSpan const &args) { return setTerm(id, TheoryTerm{static_cast<int>(func), vec(args)}); }
    TheoryTerm const &addTerm(Id_t id, Tuple_t type, IdSpan const &args) { return setTerm(id, TheoryTerm{static_cast<int>(type), vec(args)}); }
    TheoryElement const &addElement(Id_t id, IdSpan const &terms, Id_t cond = 0) {
        if (id >= elems_.size()) elems_.resize(id + 1);
        if (elems_[id].valid()) throw std::logic_error("Redefinition of theory element");
        return elems_[id] = TheoryElement{vec(terms), cond};
    }
    TheoryAtom const &addAtom(Id_t atom, Id_t term, IdSpan const &elems) { return push(new TheoryAtom{atom, term, vec(elems)}); }
    TheoryAtom const &addAtom(Id_t atom, Id_t term, IdSpan const &elems, Id_t op, Id_t rhs) { return push(new TheoryAtom{atom, term, vec(elems), op, rhs}); }
    void setCondition(Id_t id, Id_t cond) { elems_.at(id).setCondition(cond); }
    void update() { atomOff_ = ptrs_.size(); termOff_ = terms_.size(); elemOff_ = elems_.size(); }
    void reset() { terms_.clear(); elems_.clear(); ptrs_.clear(); atoms_.clear(); atomOff_ = termOff_ = elemOff_ = 0; }
    uint32_t numAtoms() const { return static_cast<uint32_t>(ptrs_.size()); }
    atom_iterator begin() const { return ptrs_.data(); }
    atom_iterator currBegin() const { return ptrs_.data() + atomOff_; }
    atom_iterator end() const { return ptrs_.data() + ptrs_.size(); }
    bool hasTerm(Id_t id) const { return id < terms_.size() && terms_[id].valid(); }
    bool hasElement(Id_t id) const { return id < elems_.size() && elems_[id].valid(); }
    bool isNewTerm(Id_t id) const { return hasTerm(id) && id >= termOff_; }
    bool isNewElement(Id_t id) const { return hasElement(id) && id >= elemOff_; }
    TheoryTerm const &getTerm(Id_t id) const { if (!hasTerm(id)) throw std::out_of_range("Unknown term"); return terms_[id]; }
    TheoryElement const &getElement(Id_t id) const { if (!hasElement(id)) throw std::out_of_range("Unknown element"); return elems_[id]; }
    void accept(Visitor &out, VisitMode m = visit_all) const {
        for (auto it = m == visit_all ? begin() : currBegin(); it != end(); ++it) out.visit(*this, **it);
    }
    void accept(TheoryTerm const &t, Visitor &out, VisitMode m = visit_all) const {
        if (t.type() == Theory_t::Compound) {
            for (auto id : t) if (doVisitTerm(m, id)) out.visit(*this, id, getTerm(id));
            if (t.isFunction() && doVisitTerm(m, t.function())) out.visit(*this, t.function(), getTerm(t.function()));
        }
    }
    void accept(TheoryElement const &e, Visitor &out, VisitMode m = visit_all) const {
        for (auto id : e) if (doVisitTerm(m, id)) out.visit(*this, id, getTerm(id));
    }
    void accept(TheoryAtom const &a, Visitor &out, VisitMode m = visit_all) const {
        if (doVisitTerm(m, a.term())) out.visit(*this, a.term(), getTerm(a.term()));
        for (auto id : a) if (doVisitElem(m, id)) out.visit(*this, id, getElement(id));
        if (a.rhs() && doVisitTerm(m, *a.rhs())) out.visit(*this, *a.rhs(), getTerm(*a.rhs()));
        if (a.guard() && doVisitTerm(m, *a.guard())) out.visit(*this, *a.guard(), getTerm(*a.guard()));
    }
  private:
    bool doVisitTerm(VisitMode m, Id_t id) const { return m == visit_all || isNewTerm(id); }
    bool doVisitElem(VisitMode m, Id_t id) const { return m == visit_all || isNewElement(id); }
    static std::vector<Id_t> vec(IdSpan const &s) { return {s.first, s.first + s.size}; }
    TheoryTerm const &setTerm(Id_t id, TheoryTerm t) {
        if (id >= terms_.size()) terms_.resize(id + 1);
        if (terms_[id].valid()) throw std::logic_error("Redefinition of theory term");
        return terms_[id] = std::move(t);
    }
    TheoryAtom const &push(TheoryAtom *a) { atoms_.emplace_back(a); ptrs_.push_back(a); return *a; }
    std::deque<TheoryTerm> terms_;
    std::deque<TheoryElement> elems_;
    std::vector<std::unique_ptr<TheoryAtom>> atoms_;
    std::vector<TheoryAtom const *> ptrs_;
    std::size_t atomOff_ = 0, termOff_ = 0, elemOff_ = 0;
};
} // namespace Potassco
#endif
