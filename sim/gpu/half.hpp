// Half precision as the vendors' headers offer it, on the host compiler's
// _Float16 (independent of the conversions of the code under test).
#ifndef VSIM_HALF_HPP
#define VSIM_HALF_HPP
#include <cmath>
#include <cstring>
namespace gpusim {
inline float h2f(unsigned short u) { _Float16 h; memcpy(&h, &u, 2); return (float)h; }
inline unsigned short f2h(float f) { _Float16 h = (_Float16)f; unsigned short u; memcpy(&u, &h, 2); return u; }
inline unsigned short d2h(double f) { _Float16 h = (_Float16)f; unsigned short u; memcpy(&u, &h, 2); return u; }
}
#endif
