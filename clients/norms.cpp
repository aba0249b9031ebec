// norms and Mahalanobis losses
#include "prelude.h"
using namespace tinyopt::losses;
using V3 = Vector<double, 3>;
using V2 = Vector<double, 2>;
using VX = Vector<double, Dynamic>;
using M32 = Matrix<double, 3, 2>;
using M22 = Matrix<double, 2, 2>;
using R2 = RowVector<double, 2>;

template <typename P>
static void put(double *out, const P &p) {
  if constexpr (traits::is_scalar_v<std::decay_t<decltype(p.first)>>) {
    *out++ = p.first;
  } else {
    for (int i = 0; i < p.first.size(); ++i) *out++ = p.first.reshaped()[i];
  }
  if constexpr (traits::is_scalar_v<std::decay_t<decltype(p.second)>>) {
    *out++ = p.second;
  } else {
    const auto J = p.second.eval();
    for (int i = 0; i < J.size(); ++i) *out++ = J.reshaped()[i];
  }
}

#define NORM(L)                                                                                        \
  extern "C" double vp_##L##_v(const V3 *x) { return L(*x); }                                          \
  extern "C" double vp_##L##_n(const V3 *x) { return L(*x, nullptr); }                                 \
  extern "C" void vp_##L##_b(const V3 *x, double *out) { put(out, L(*x, true)); }                      \
  extern "C" void vp_##L##_j(const V3 *x, const M32 *J, double *out) { put(out, L(*x, *J)); }          \
  extern "C" void vp_##L##_p(const V3 *x, const M32 *J, double *out) {                                 \
    put(out, L(std::make_pair(*x, *J)));                                                               \
  }                                                                                                    \
  extern "C" double vp_##L##_sv(double x) { return L(x); }                                             \
  extern "C" float vp_##L##_sf(float x) { return L(x); }                                               \
  extern "C" void vp_##L##_sb(double x, double *out) { put(out, L(x, true)); }                         \
  extern "C" void vp_##L##_sj(double x, const R2 *J, double *out) { put(out, L(x, *J)); }
NORM(SquaredL2)
NORM(L2)
NORM(L1)
NORM(Linf)
extern "C" void vp_SquaredL2_h(const V3 *x, double *out) { put(out, SquaredL2(*x, true, false)); }
extern "C" void vp_SquaredL2_sh(double x, double *out) { put(out, SquaredL2(x, true, false)); }

// Mahalanobis, scalar
extern "C" double vp_MahaSq_sv(double x, double v) { return MahaSquaredNorm(x, v); }
extern "C" void vp_MahaSq_sb(double x, double v, double *out) { put(out, MahaSquaredNorm(x, v, true)); }
extern "C" void vp_MahaSq_sj(double x, double v, double J, double *out) { put(out, MahaSquaredNorm(x, v, J)); }
extern "C" void vp_MahaSq_sh(double x, double v, double *out) { put(out, MahaSquaredNorm(x, v, true, false)); }
extern "C" double vp_Maha_sv(double x, double v) { return MahaNorm(x, v); }
extern "C" void vp_Maha_sb(double x, double v, double *out) { put(out, MahaNorm(x, v, true)); }
// vector, variances
extern "C" double vp_MahaSq_vv(const V3 *x, const V3 *v) { return MahaSquaredNorm(*x, *v); }
extern "C" void vp_MahaSq_vb(const V3 *x, const V3 *v, double *out) { put(out, MahaSquaredNorm(*x, *v, true)); }
extern "C" void vp_MahaSq_vh(const V3 *x, const V3 *v, double *out) { put(out, MahaSquaredNorm(*x, *v, true, false)); }
extern "C" void vp_MahaSq_vj(const V3 *x, const V3 *v, const M32 *J, double *out) {
  put(out, MahaSquaredNorm(*x, *v, *J));
}
extern "C" double vp_Maha_vv(const V3 *x, const V3 *v) { return MahaNorm(*x, *v); }
extern "C" void vp_Maha_vb(const V3 *x, const V3 *v, double *out) { put(out, MahaNorm(*x, *v, true)); }
extern "C" void vp_Maha_vj(const V3 *x, const V3 *v, const M32 *J, double *out) { put(out, MahaNorm(*x, *v, *J)); }
// vector, covariance
extern "C" double vp_MahaSq_cv(const V2 *x, const M22 *C) { return MahaSquaredNorm(*x, *C); }
extern "C" void vp_MahaSq_cb(const V2 *x, const M22 *C, double *out) { put(out, MahaSquaredNorm(*x, *C, true)); }
extern "C" void vp_MahaSq_cj(const V2 *x, const M22 *C, const M22 *J, double *out) {
  put(out, MahaSquaredNorm(*x, *C, *J));
}
extern "C" double vp_Maha_cv(const V2 *x, const M22 *C) { return MahaNorm(*x, *C); }
extern "C" void vp_Maha_cb(const V2 *x, const M22 *C, double *out) { put(out, MahaNorm(*x, *C, true)); }
extern "C" void vp_Maha_cj(const V2 *x, const M22 *C, const M22 *J, double *out) { put(out, MahaNorm(*x, *C, *J)); }
// whitening
static void putv(double *out, const auto &v) {
  for (int i = 0; i < v.size(); ++i) out[i] = v.reshaped()[i];
}
extern "C" void vp_White_iv(const V3 *x, double s, double *out) { putv(out, MahaWhitened(*x, s)); }
extern "C" void vp_White_ib(const V3 *x, double s, double *out) { put(out, MahaWhitened(*x, s, true)); }
extern "C" void vp_White_ij(const V3 *x, double s, const M32 *J, double *out) { put(out, MahaWhitened(*x, s, *J)); }
extern "C" void vp_White_sv(const V3 *x, const V3 *s, double *out) { putv(out, MahaWhitened(*x, *s)); }
extern "C" void vp_White_sb(const V3 *x, const V3 *s, double *out) { put(out, MahaWhitened(*x, *s, true)); }
extern "C" void vp_White_sj(const V3 *x, const V3 *s, const M32 *J, double *out) { put(out, MahaWhitened(*x, *s, *J)); }
extern "C" void vp_White_cv(const V2 *x, const M22 *C, double *out) { putv(out, MahaWhitened(*x, *C)); }
extern "C" void vp_White_cb(const V2 *x, const M22 *C, double *out) { put(out, MahaWhitened(*x, *C, true)); }
extern "C" void vp_White_cj(const V2 *x, const M22 *C, const M22 *J, double *out) { put(out, MahaWhitened(*x, *C, *J)); }
extern "C" void vp_InfoU_v(const V2 *x, const M22 *U, double *out) { putv(out, MahaWhitenedInfoU(*x, *U)); }
extern "C" void vp_InfoU_b(const V2 *x, const M22 *U, double *out) { put(out, MahaWhitenedInfoU(*x, *U, true)); }
extern "C" void vp_InfoU_j(const V2 *x, const M22 *U, const M22 *J, double *out) {
  put(out, MahaWhitenedInfoU(*x, *U, *J));
}
// covariance and variances of a size known at run time only
using MX = Matrix<double, Dynamic, Dynamic>;
#define DYN(F, n)                                                                                       \
  extern "C" double vp_##n##_dcv(const V2 *x, const M22 *C) { return F(VX(*x), MX(*C)); }               \
  extern "C" void vp_##n##_dcb(const V2 *x, const M22 *C, double *out) { put(out, F(VX(*x), MX(*C), true)); } \
  extern "C" void vp_##n##_dcj(const V2 *x, const M22 *C, const M22 *J, double *out) {                  \
    put(out, F(VX(*x), MX(*C), MX(*J)));                                                                \
  }                                                                                                     \
  extern "C" double vp_##n##_dvv(const V3 *x, const V3 *v) { return F(VX(*x), MX(*v)); }                \
  extern "C" void vp_##n##_dvb(const V3 *x, const V3 *v, double *out) { put(out, F(VX(*x), MX(*v), true)); } \
  extern "C" void vp_##n##_dvj(const V3 *x, const V3 *v, const M32 *J, double *out) {                   \
    put(out, F(VX(*x), MX(*v), MX(*J)));                                                                \
  }
DYN(MahaSquaredNorm, MahaSq)
DYN(MahaNorm, Maha)
