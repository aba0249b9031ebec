// distances
#include "prelude.h"
#include <tinyopt/distances.h>
namespace D = tinyopt::distances;
using V3 = Vector<double, 3>;
using V2 = Vector<double, 2>;
using M22 = Matrix<double, 2, 2>;

template <typename P>
static void put1(double *&out, const P &p) {
  if constexpr (traits::is_scalar_v<std::decay_t<P>>) {
    *out++ = p;
  } else {
    const auto J = p.eval();
    for (int i = 0; i < J.size(); ++i) *out++ = J.reshaped()[i];
  }
}
template <typename P>
static void put(double *out, const P &p) {
  put1(out, std::get<0>(p));
  put1(out, std::get<1>(p));
  put1(out, std::get<2>(p));
}
#define DIST(L)                                                                                   \
  extern "C" double vp_##L##_v(const V3 *a, const V3 *b) { return D::L(*a, *b); }                 \
  extern "C" void vp_##L##_b(const V3 *a, const V3 *b, double *out) { put(out, D::L(*a, *b, true)); }
#define DISTS(L)                                                                                  \
  extern "C" double vp_##L##_sv(double a, double b) { return D::L(a, b); }                        \
  extern "C" void vp_##L##_sb(double a, double b, double *out) { put(out, D::L(a, b, true)); }
DIST(Euclidean)
DIST(L2)
DIST(Manhattan)
DIST(L1)
DIST(Linf)
DIST(Cosine)
DISTS(Euclidean)
DISTS(L2)
DISTS(Manhattan)
DISTS(L1)
DISTS(Linf)
extern "C" double vp_Maha_sv(double a, double b, double v) { return D::MahaNorm(a, b, v); }
extern "C" void vp_Maha_sb(double a, double b, double v, double *out) { put(out, D::MahaNorm(a, b, v, true)); }
extern "C" double vp_Maha_vv(const V3 *a, const V3 *b, const V3 *v) { return D::MahaNorm((*a).eval(), (*b).eval(), *v); }
extern "C" void vp_Maha_vb(const V3 *a, const V3 *b, const V3 *v, double *out) { put(out, D::MahaNorm(*a, *b, *v, true)); }
extern "C" double vp_Maha_cv(const V2 *a, const V2 *b, const M22 *C) { return D::MahaNorm(*a, *b, *C); }
extern "C" void vp_Maha_cb(const V2 *a, const V2 *b, const M22 *C, double *out) { put(out, D::MahaNorm(*a, *b, *C, true)); }
