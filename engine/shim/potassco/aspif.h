#ifndef VP_POTASSCO_ASPIF_H
#define VP_POTASSCO_ASPIF_H
#include <potassco/basic_types.h>
#include <istream>
#include <ostream>
#include <sstream>
namespace Potassco {
class AspifOutput : public AbstractProgram {
  public:
    AspifOutput(std::ostream &os) : os_(os) {}
    void initProgram(bool inc) override { os_ << "asp 1 0 0" << (inc ? " incremental" : "") << "\n"; }
    void beginStep() override {}
    void rule(Head_t ht, AtomSpan const &head, LitSpan const &body) override { os_ << "1 " << unsigned(ht); sp(head); os_ << " 0"; sp(body); os_ << "\n"; }
    void rule(Head_t ht, AtomSpan const &head, Weight_t bound, WeightLitSpan const &body) override { os_ << "1 " << unsigned(ht); sp(head); os_ << " 1 " << bound; sp(body); os_ << "\n"; }
    void minimize(Weight_t prio, WeightLitSpan const &lits) override { os_ << "2 " << prio; sp(lits); os_ << "\n"; }
    void project(AtomSpan const &atoms) override { os_ << "3"; sp(atoms); os_ << "\n"; }
    void output(StringSpan const &str, LitSpan const &cond) override { os_ << "4"; sp(str); sp(cond); os_ << "\n"; }
    void external(Atom_t a, Value_t v) override { os_ << "5 " << a << " " << unsigned(v) << "\n"; }
    void assume(LitSpan const &lits) override { os_ << "6"; sp(lits); os_ << "\n"; }
    void heuristic(Atom_t a, Heuristic_t t, int bias, unsigned prio, LitSpan const &cond) override { os_ << "7 " << unsigned(t) << " " << a << " " << bias << " " << prio; sp(cond); os_ << "\n"; }
    void acycEdge(int s, int t, LitSpan const &cond) override { os_ << "8 " << s << " " << t; sp(cond); os_ << "\n"; }
    void theoryTerm(Id_t id, int number) override { os_ << "9 0 " << id << " " << number << "\n"; }
    void theoryTerm(Id_t id, StringSpan const &name) override { os_ << "9 1 " << id; sp(name); os_ << "\n"; }
    void theoryTerm(Id_t id, int cId, IdSpan const &args) override { os_ << "9 2 " << id << " " << cId; sp(args); os_ << "\n"; }
    void theoryElement(Id_t id, IdSpan const &terms, LitSpan const &cond) override { os_ << "9 4 " << id; sp(terms); sp(cond); os_ << "\n"; }
    void theoryAtom(Id_t a, Id_t t, IdSpan const &elems) override { os_ << "9 5 " << a << " " << t; sp(elems); os_ << "\n"; }
    void theoryAtom(Id_t a, Id_t t, IdSpan const &elems, Id_t op, Id_t rhs) override { os_ << "9 6 " << a << " " << t; sp(elems); os_ << " " << op << " " << rhs << "\n"; }
    void endStep() override { os_ << "0\n"; }
  private:
    template <class T> void sp(Span<T> const &s) { os_ << " " << s.size; for (std::size_t i = 0; i < s.size; ++i) os_ << " " << s.first[i]; }
    void sp(StringSpan const &s) { os_ << " " << s.size << " "; os_.write(s.first, static_cast<std::streamsize>(s.size)); }
    void sp(WeightLitSpan const &s) { os_ << " " << s.size; for (std::size_t i = 0; i < s.size; ++i) os_ << " " << s.first[i].lit << " " << s.first[i].weight; }
    std::ostream &os_;
};
// Reads one aspif program (all steps) and feeds it to out.
inline int readAspif(std::istream &in, AbstractProgram &out) {
    auto num = [&]() { long x; if (!(in >> x)) throw std::runtime_error("aspif: integer expected"); return x; };
    auto str = [&]() { auto n = num(); in.get(); std::string s(static_cast<std::size_t>(n), ' '); in.read(&s[0], n); return s; };
    auto lits = [&]() { LitVec v; for (auto n = num(); n > 0; --n) v.push_back(static_cast<Lit_t>(num())); return v; };
    auto ids = [&]() { std::vector<Id_t> v; for (auto n = num(); n > 0; --n) v.push_back(static_cast<Id_t>(num())); return v; };
    auto wlits = [&]() { WLitVec v; for (auto n = num(); n > 0; --n) { auto l = static_cast<Lit_t>(num()); v.push_back({l, static_cast<Weight_t>(num())}); } return v; };
    std::string hdr;
    std::getline(in, hdr);
    if (hdr.compare(0, 4, "asp ") != 0) throw std::runtime_error("aspif: header expected");
    out.initProgram(hdr.find("incremental") != std::string::npos);
    bool open = false;
    long type;
    while (in >> type) {
        if (!open) { out.beginStep(); open = true; }
        switch (type) {
            case 0: out.endStep(); open = false; break;
            case 1: {
                Head_t ht(static_cast<unsigned>(num())); auto h = ids();
                if (num() == 0) { auto b = lits(); out.rule(ht, toSpan(h), toSpan(b)); }
                else { auto bound = static_cast<Weight_t>(num()); auto b = wlits(); out.rule(ht, toSpan(h), bound, toSpan(b)); }
                break;
            }
            case 2: { auto p = static_cast<Weight_t>(num()); auto b = wlits(); out.minimize(p, toSpan(b)); break; }
            case 3: { auto a = ids(); out.project(toSpan(a)); break; }
            case 4: { auto s = str(); auto c = lits(); out.output(toSpan(s.c_str(), s.size()), toSpan(c)); break; }
            case 5: { auto a = static_cast<Atom_t>(num()); out.external(a, Value_t(static_cast<unsigned>(num()))); break; }
            case 6: { auto c = lits(); out.assume(toSpan(c)); break; }
            case 7: { Heuristic_t t(static_cast<unsigned>(num())); auto a = static_cast<Atom_t>(num()); auto b = static_cast<int>(num()); auto p = static_cast<unsigned>(num()); auto c = lits(); out.heuristic(a, t, b, p, toSpan(c)); break; }
            case 8: { auto s = static_cast<int>(num()); auto t = static_cast<int>(num()); auto c = lits(); out.acycEdge(s, t, toSpan(c)); break; }
            case 9: {
                auto tt = num(); auto id = static_cast<Id_t>(num());
                if (tt == 0) out.theoryTerm(id, static_cast<int>(num()));
                else if (tt == 1) { auto s = str(); out.theoryTerm(id, toSpan(s.c_str(), s.size())); }
                else if (tt == 2) { auto c = static_cast<int>(num()); auto a = ids(); out.theoryTerm(id, c, toSpan(a)); }
                else if (tt == 4) { auto a = ids(); auto c = lits(); out.theoryElement(id, toSpan(a), toSpan(c)); }
                else if (tt == 5) { auto t = static_cast<Id_t>(num()); auto e = ids(); out.theoryAtom(id, t, toSpan(e)); }
                else if (tt == 6) { auto t = static_cast<Id_t>(num()); auto e = ids(); auto op = static_cast<Id_t>(num()); auto r = static_cast<Id_t>(num()); out.theoryAtom(id, t, toSpan(e), op, r); }
                else throw std::runtime_error("aspif: theory directive");
                break;
            }
            case 10: { std::string s; std::getline(in, s); break; }
            default: throw std::runtime_error("aspif: unknown directive");
        }
    }
    if (open) throw std::runtime_error("aspif: unexpected end");
    return 0;
}
} // namespace Potassco
#endif
