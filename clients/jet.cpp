// Jet operations: value and derivative parts
#include "prelude.h"
#include <tinyopt/diff/jet.h>
using J2 = diff::Jet<double, 2>;
using JX = diff::Jet<double, Dynamic>;
using J2f = diff::Jet<float, 2>;

static void put(double *out, const J2 &r) {
  out[0] = r.a;
  out[1] = r.v[0];
  out[2] = r.v[1];
}
static void putx(double *out, const JX &r) {
  out[0] = r.a;
  out[1] = r.v.size() > 0 ? r.v[0] : 0;  // an empty derivative part stands for zero
  out[2] = r.v.size() > 0 ? r.v[1] : 0;
  out[3] = (r.v.size() == 0 || r.v.size() == 2) ? 1 : 0;
}
static JX dyn(const double *p) {
  Vector<double, Dynamic> v(2);
  v[0] = p[1];
  v[1] = p[2];
  return JX(p[0], v);
}
static J2 fix(const double *p) { return J2(p[0], Vector<double, 2>(p[1], p[2])); }
using namespace ceres;
// unary
#define U(n, e)                                                                                    \
  extern "C" void vp_u_##n(const double *pf, double *out) { const J2 f = fix(pf); put(out, J2(e)); }        \
  extern "C" void vp_ux_##n(const double *pf, double *out) { const JX f = dyn(pf); putx(out, JX(e)); }
U(plus, +f) U(minus, -f) U(abs, abs(f)) U(log, log(f)) U(log10, log10(f)) U(log1p, log1p(f)) U(exp, exp(f))
U(expm1, expm1(f)) U(sqrt, sqrt(f)) U(cos, cos(f)) U(acos, acos(f)) U(sin, sin(f)) U(asin, asin(f)) U(tan, tan(f))
U(atan, atan(f)) U(sinh, sinh(f)) U(cosh, cosh(f)) U(tanh, tanh(f)) U(cbrt, cbrt(f)) U(exp2, exp2(f)) U(log2, log2(f))
U(erf, erf(f)) U(erfc, erfc(f)) U(norm, norm(f))
#define U1(n, e) extern "C" void vp_u_##n(const double *pf, double *out) { const J2 f = fix(pf); put(out, J2(e)); }
U1(floor, floor(f)) U1(ceil, ceil(f))
#ifdef CERES_HAS_CPP17_BESSEL_FUNCTIONS
U1(bessel0, BesselJ0(f)) U1(bessel1, BesselJ1(f)) U1(bessel3, BesselJn(3, f))
#endif
// with a scalar
#define S(n, e)                                                                                              \
  extern "C" void vp_s_##n(const double *pf, double s, double *out) { const J2 f = fix(pf); put(out, J2(e)); }        \
  extern "C" void vp_sx_##n(const double *pf, double s, double *out) { const JX f = dyn(pf); putx(out, JX(e)); }
S(addr, f + s) S(addl, s + f) S(subr, f - s) S(subl, s - f) S(mulr, f * s) S(mull, s * f) S(divr, f / s) S(divl, s / f)
S(powr, pow(f, s)) S(powl, pow(s, f))
#define SA(n, e)                                                                                             \
  extern "C" void vp_s_##n(const double *pf, double s, double *out) { J2 f = fix(pf); e; put(out, f); }               \
  extern "C" void vp_sx_##n(const double *pf, double s, double *out) { JX f = dyn(pf); e; putx(out, f); }
SA(adda, f += s) SA(suba, f -= s) SA(mula, f *= s) SA(diva, f /= s)
// two jets; the xl/xr forms have one operand without derivative part
#define B(n, e)                                                                                                        \
  extern "C" void vp_b_##n(const double *pf, const double *pg, double *out) { const J2 f = fix(pf), g = fix(pg); put(out, J2(e)); } \
  extern "C" void vp_bx_##n(const double *pf, const double *pg, double *out) { const JX f = dyn(pf), g = dyn(pg); putx(out, JX(e)); }
#define BX(n, e)                                                                                                       \
  B(n, e)                                                                                                              \
  extern "C" void vp_bl_##n(const double *pf, const double *pg, double *out) { const JX f(pf[0]), g = dyn(pg); putx(out, JX(e)); }  \
  extern "C" void vp_br_##n(const double *pf, const double *pg, double *out) { const JX f = dyn(pf), g(pg[0]); putx(out, JX(e)); }
BX(add, f + g) BX(sub, f - g) BX(mul, f *g) BX(div, f / g) BX(atan2, atan2(f, g)) BX(copysign, copysign(f, g)) BX(pow, pow(f, g))
BX(hypot, hypot(f, g)) BX(fdim, fdim(f, g)) BX(fmax, fmax(f, g)) BX(fmin, fmin(f, g))
#ifdef CERES_HAS_CPP20
BX(midpoint, midpoint(f, g))
#endif
#define BA(n, e)                                                                                                       \
  extern "C" void vp_b_##n(const double *pf, const double *pg, double *out) { J2 f = fix(pf); const J2 g = fix(pg); e; put(out, f); } \
  extern "C" void vp_bx_##n(const double *pf, const double *pg, double *out) { JX f = dyn(pf); const JX g = dyn(pg); e; putx(out, f); }
BA(adda, f += g) BA(suba, f -= g) BA(mula, f *= g) BA(diva, f /= g)
// operand aliasing
extern "C" void vp_u_selfmul(const double *pf, double *out) { J2 f = fix(pf); f *= f; put(out, f); }
extern "C" void vp_u_selfdiv(const double *pf, double *out) { J2 f = fix(pf); f /= f; put(out, f); }
// three jets
#define T3(n, e) \
  extern "C" void vp_t_##n(const double *pf, const double *pg, const double *ph, double *out) { const J2 f = fix(pf), g = fix(pg), h = fix(ph); put(out, e); } \
  extern "C" void vp_tx_##n(const double *pf, const double *pg, const double *ph, double *out) { const JX f = dyn(pf), g = dyn(pg), h = dyn(ph); putx(out, e); } \
  extern "C" void vp_ta_##n(const double *pf, const double *pg, const double *ph, double *out) { const JX f = dyn(pf), g(pg[0]), h(ph[0]); putx(out, e); } \
  extern "C" void vp_tb_##n(const double *pf, const double *pg, const double *ph, double *out) { const JX f(pf[0]), g = dyn(pg), h(ph[0]); putx(out, e); } \
  extern "C" void vp_tc_##n(const double *pf, const double *pg, const double *ph, double *out) { const JX f(pf[0]), g(pg[0]), h = dyn(ph); putx(out, e); }
T3(hypot3, hypot(f, g, h)) T3(fma, fma(f, g, h))
#ifdef CERES_HAS_CPP20
T3(lerp, lerp(f, g, h))
#endif
// comparisons
extern "C" void vp_cmp(const double *pf, const double *pg, double s, double *out) {
  const J2 f = fix(pf), g = fix(pg);
#define C(op) *out++ = (f op g) ? 1 : 0; *out++ = (f op s) ? 1 : 0; *out++ = (s op f) ? 1 : 0;
  C(<) C(<=) C(>) C(>=) C(==) C(!=)
}
extern "C" void vp_isx(const double *pf, const double *pg, double *out) {
  const J2 f = fix(pf), g = fix(pg);
  *out++ = isless(f, g) ? 1 : 0;
  *out++ = islessequal(f, g) ? 1 : 0;
  *out++ = isgreater(f, g) ? 1 : 0;
  *out++ = isgreaterequal(f, g) ? 1 : 0;
  *out++ = islessgreater(f, g) ? 1 : 0;
}
// construction
extern "C" void vp_ctor0(double *out) { put(out, J2()); }
extern "C" void vp_ctor1(double a, double *out) { put(out, J2(a)); }
extern "C" void vp_ctork0(double a, double *out) { put(out, J2(a, 0)); }
extern "C" void vp_ctork1(double a, double *out) { put(out, J2(a, 1)); }
// float jets
extern "C" void vp_f_expr(const float *p, float *out) {
  const J2f f(p[0], Vector<float, 2>(p[1], p[2])), g(p[3], Vector<float, 2>(p[4], p[5]));
  const J2f r = sin(f) * g / (exp(g) + 2.0f) - sqrt(f);
  out[0] = r.a;
  out[1] = r.v[0];
  out[2] = r.v[1];
}
