// activation and classification losses
#include "prelude.h"
using namespace tinyopt::losses;
using V3 = Vector<double, 3>;
using VX = Vector<double, Dynamic>;
using V3f = Vector<float, 3>;
using M32 = Matrix<double, 3, 2>;
using MX = Matrix<double, Dynamic, Dynamic>;
using R2 = RowVector<double, 2>;

template <typename T>
static void put1(double *&out, const T &v) {
  if constexpr (std::is_arithmetic_v<T>) {
    *out++ = v;
  } else {
    for (int i = 0; i < v.size(); ++i) *out++ = v.reshaped()[i];
  }
}
template <typename P>
static void put(double *out, const P &p) {
  put1(out, p.first);
  put1(out, p.second);
}
#define A0
#define A1 , a
#define ACT(L, PAR, ARG)                                                                                                  \
  extern "C" void vp_##L##_v(const V3 *x, double a, double *out) { (void)a; put1(out, L(*x ARG)); }                       \
  extern "C" void vp_##L##_b(const V3 *x, double a, double *out) { (void)a; put(out, L(*x ARG, true)); }                  \
  extern "C" void vp_##L##_j(const V3 *x, double a, const M32 *J, double *out) { (void)a; put(out, L(*x ARG, *J)); }      \
  extern "C" void vp_##L##_p(const V3 *x, double a, const M32 *J, double *out) {                                          \
    (void)a;                                                                                                              \
    put(out, L(std::make_pair(*x, *J) ARG));                                                                              \
  }                                                                                                                       \
  extern "C" double vp_##L##_sv(double x, double a) { (void)a; return L(x ARG); }                                         \
  extern "C" void vp_##L##_sb(double x, double a, double *out) { (void)a; put(out, L(x ARG, true)); }                     \
  extern "C" void vp_##L##_sj(double x, double a, const R2 *J, double *out) { (void)a; put(out, L(x ARG, *J)); }          \
  extern "C" void vp_##L##_dv(const double *x, double a, double *out) {                                                   \
    (void)a;                                                                                                              \
    const VX v = V3::Map(x);                                                                                              \
    put1(out, L(v ARG));                                                                                                  \
  }                                                                                                                       \
  extern "C" void vp_##L##_dj(const double *x, double a, const double *J, double *out) {                                  \
    (void)a;                                                                                                              \
    const VX v = V3::Map(x);                                                                                              \
    const MX Jx = M32::Map(J);                                                                                            \
    put(out, L(v ARG, Jx));                                                                                               \
  }
ACT(Sigmoid, , A0)
ACT(Tanh, , A0)
ACT(ReLU, , A0)
ACT(LeakyReLU, double a, A1)

#define SOFT(L)                                                                                     \
  extern "C" void vp_##L##_v(const V3 *x, double *out) { put1(out, L(*x)); }                        \
  extern "C" void vp_##L##_b(const V3 *x, double *out) { put(out, L(*x, true)); }                   \
  extern "C" void vp_##L##_j(const V3 *x, const M32 *J, double *out) { put(out, L(*x, *J)); }       \
  extern "C" void vp_##L##_p(const V3 *x, const M32 *J, double *out) {                              \
    put(out, L(std::make_pair(*x, *J)));                                                            \
  }                                                                                                 \
  extern "C" void vp_##L##_dj(const double *x, const double *J, double *out) {                      \
    const VX v = V3::Map(x);                                                                        \
    const MX Jx = M32::Map(J);                                                                      \
    put(out, L(v, Jx));                                                                             \
  }                                                                                                 \
  extern "C" double vp_##L##_sv(double x) { return L(x); }                                          \
  extern "C" void vp_##L##_sb(double x, double *out) { put(out, L(x, true)); }                      \
  extern "C" void vp_##L##_sj(double x, const R2 *J, double *out) { put(out, L(x, *J)); }
SOFT(Softmax)
SOFT(SafeSoftmax)
