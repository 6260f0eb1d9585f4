#ifndef VP_POTASSCO_CONVERT_H
#define VP_POTASSCO_CONVERT_H
#include <potassco/basic_types.h>
namespace Potassco {
class SmodelsConvert : public AbstractProgram {
  public:
    SmodelsConvert(AbstractProgram &out, bool) : out_(out) {}
    void initProgram(bool i) override { out_.initProgram(i); }
    void beginStep() override { out_.beginStep(); }
    void rule(Head_t h, AtomSpan const &a, LitSpan const &b) override { out_.rule(h, a, b); }
    void rule(Head_t h, AtomSpan const &a, Weight_t w, WeightLitSpan const &b) override { out_.rule(h, a, w, b); }
    void minimize(Weight_t p, WeightLitSpan const &l) override { out_.minimize(p, l); }
    void output(StringSpan const &s, LitSpan const &c) override { out_.output(s, c); }
    void external(Atom_t a, Value_t v) override { out_.external(a, v); }
    void endStep() override { out_.endStep(); }
  private:
    AbstractProgram &out_;
};
}
#endif
