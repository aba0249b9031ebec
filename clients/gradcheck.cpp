// The gradient checkers on opaque user functions: cost and residuals u_f, gradient u_g
// and Hessian u_h have no known relation.  VP_NAN puts a NaN at one place.
#include "prelude.h"
#include <tinyopt/diff/gradient_check.h>
#include <limits>
using namespace tinyopt::diff;
using V2 = Vector<double, 2>;
using M22 = Matrix<double, 2, 2>;
using VX = Vector<double, Dynamic>;
extern "C" {
__attribute__((const)) double u_f(int i, double a, double b) noexcept;
__attribute__((const)) double u_g(int i, double a, double b) noexcept;
__attribute__((const)) double u_h(int i, int j, double a, double b) noexcept;
}
static double A(const double &x) { return x; }
static double B(const double &) { return 0; }
template <typename X> static double A(const X &x) { return x[0]; }
template <typename X> static double B(const X &x) { return x[1]; }
#define NANS std::numeric_limits<double>::quiet_NaN()
// which: entry of the gradient (0, 1) or of the Hessian (2 + i + 2j) that is NaN, -1: none
template <typename G, typename X> static void gradient(G &g, const X &x, int which) {
  if constexpr (!traits::is_nullptr_v<G>) {
    for (int i = 0; i < g.size(); ++i) g[i] = which == i ? NANS : u_g(i, A(x), B(x));
  }
}
template <typename G, typename H, typename X> static void hessian(G &g, H &h, const X &x, int which) {
  if constexpr (!traits::is_nullptr_v<G> && !traits::is_nullptr_v<H>) {
    for (int j = 0; j < h.cols(); ++j)
      for (int i = 0; i < h.rows(); ++i) h(i, j) = which == 2 + i + 2 * j ? NANS : u_h(i, j, A(x), B(x));
  }
}
template <typename X> static double cost(const X &x) { return u_f(0, A(x), B(x)); }
template <typename R, typename X> static R res(const X &x) {
  if constexpr (std::is_scalar_v<R>)
    return u_f(0, A(x), B(x));
  else {
    R r(2);
    r[0] = u_f(0, A(x), B(x));
    r[1] = u_f(1, A(x), B(x));
    return r;
  }
}
static V2 v2(const double *p) { return V2(p[0], p[1]); }
static VX vx(const double *p) {
  VX v(2);
  v << p[0], p[1];
  return v;
}
static double v1(const double *p) { return p[0]; }
template <typename X> static void put(bool r, const X &x, double *o) {
  *o++ = r;
  *o++ = A(x);
  *o++ = B(x);
}
// cost functions
#define COST(name, X, H)                                                                                  \
  extern "C" void vp_c2_##name(const double *p, double eps, int m, int w, double *o) {                    \
    auto x = name(p);                                                                                     \
    put(CheckGradient(x, [w](const X &x, auto &g) { gradient(g, x, w); return cost(x); }, eps, (Method)m, false), x, o);       \
  }                                                                                                       \
  extern "C" void vp_c3_##name(const double *p, double eps, int m, int w, double *o) {                    \
    auto x = name(p);                                                                                     \
    put(CheckGradient(x, [w](const X &x, auto &g, H &) { gradient(g, x, w); return cost(x); }, eps, (Method)m, false), x, o);  \
  }
COST(v2, V2, M22)
COST(vx, VX, MatX)
COST(v1, double, Mat1)
extern "C" void vp_c3_sp(const double *p, double eps, int m, int w, double *o) {
  auto x = v2(p);
  put(CheckGradient(x, [w](const V2 &x, auto &g, SparseMatrix<double> &) { gradient(g, x, w); return cost(x); }, eps, (Method)m, false), x, o);
}
// a cost with a number of residuals is a cost as well
extern "C" void vp_default_v2(const double *p, double *o) {
  auto x = v2(p);
  put(CheckGradient(x, [](const V2 &x, auto &g) { gradient(g, x, -1); return cost(x); }), x, o);
}
// residuals
#define RESID(name, X, R, H, suffix)                                                                               \
  extern "C" void vp_r2_##suffix(const double *p, double eps, int m, int w, bool check, bool down, double *o) {   \
    auto x = name(p);                                                                                             \
    put(CheckResidualsGradient(x, [w](const X &x, auto &g) { gradient(g, x, w); return res<R>(x); }, eps, (Method)m, false, check, down), x, o); \
  }                                                                                                               \
  extern "C" void vp_r3_##suffix(const double *p, double eps, int m, int w, bool check, bool down, double *o) {   \
    auto x = name(p);                                                                                             \
    put(CheckResidualsGradient(x, [w](const X &x, auto &g, H &h) { gradient(g, x, w); hessian(g, h, x, w); return res<R>(x); }, eps, (Method)m, false, check, down), x, o); \
  }
RESID(v2, V2, V2, M22, v2_2)
RESID(v2, V2, double, M22, v2_1)
RESID(vx, VX, VX, MatX, vx_x)
RESID(v1, double, V2, Mat1, v1_2)
// the largest difference of two sparse matrices, for every pattern of stored entries
template <int N> static SparseMatrix<double> fill(const double *a, int mask, int w) {
  SparseMatrix<double> m(N, N);
  m.reserve(N * N);
  for (int j = 0; j < N; ++j)
    for (int i = 0; i < N; ++i)
      if (mask >> (i + N * j) & 1) m.insert(i, j) = w == i + N * j ? NANS : a[i + N * j];
  m.makeCompressed();
  return m;
}
extern "C" void vp_maxdiff(const double *a, const double *b, int ma, int mb, int wa, int wb, double *o) { *o = MaxAbsDiff(fill<2>(a, ma, wa), fill<2>(b, mb, wb)); }
