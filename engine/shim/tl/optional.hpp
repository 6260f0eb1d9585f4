#ifndef VP_TL_OPTIONAL
#define VP_TL_OPTIONAL
#include <optional>
namespace tl { using std::optional; using std::nullopt; using std::make_optional; using std::nullopt_t; using std::in_place; }
#endif
