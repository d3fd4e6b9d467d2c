// Harness API.  In the symbolic build the vp_* functions are interpreted by
// the symbolic executor; in the native build vp_native.cpp implements them by
// reading a replay file.
#ifndef VP_H
#define VP_H
#include <cstdint>
#include <cstddef>
extern "C" {
double   vp_double(char const * name);            // any double
float    vp_float(char const * name);
uint8_t  vp_u8(char const * name);
uint16_t vp_u16(char const * name);
uint32_t vp_u32(char const * name);
uint64_t vp_u64(char const * name);
bool     vp_bool(char const * name);
int      vp_choice(char const * name, int n);     // 0..n-1, path-split
double   vp_angle(char const * name, double lo, double hi); // real domain
// equality of reals, exact in the real domain, within tol natively
bool     vp_eq(double a, double b, double tol);
bool     vp_angle_eq(double a, double b, double tol);  // modulo 2 pi
bool     vp_le(double a, double b, double tol);
void     vp_hint_square(double v);  // v*v will be a radicand
void     vp_assume(bool c);
void     vp_assert(bool c, char const * label);
void     vp_fail(char const * label);
void     vp_reach(char const * label);            // vacuity witness
void     vp_out(char const * name, double v);     // translator validation
void     vp_outi(char const * name, uint64_t v);
int      vp_symbolic();                           // 1 in the symbolic build
bool     vp_and(bool a, bool b);                  // non-forking connectives
bool     vp_or(bool a, bool b);
}
#define VP_HARNESS(name) extern "C" void name
#endif
