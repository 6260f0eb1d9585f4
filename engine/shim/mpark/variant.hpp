#ifndef VP_MPARK_VARIANT
#define VP_MPARK_VARIANT
#include <variant>
namespace mpark { using std::variant; using std::visit; using std::get; using std::get_if; using std::holds_alternative; using std::monostate; using std::bad_variant_access; using std::in_place_type; using std::in_place_index; }
#endif
