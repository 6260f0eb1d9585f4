#ifndef VP_POTASSCO_SMODELS_H
#define VP_POTASSCO_SMODELS_H
#include <potassco/aspif.h>
namespace Potassco {
// smodels format is not modelled: statements are written as aspif
class SmodelsOutput : public AspifOutput { public: SmodelsOutput(std::ostream &os, bool, Atom_t) : AspifOutput(os) {} };
}
#endif
