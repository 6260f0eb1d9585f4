#ifndef VP_WIDE
#define VP_WIDE
namespace math { namespace wide_integer { using int128_t = __int128; } }
#endif
