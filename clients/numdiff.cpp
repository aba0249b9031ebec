// numerical differentiation of opaque user functions
#include "prelude.h"
#include <tinyopt/diff/num_diff.h>
#include <array>
#include <vector>
using namespace tinyopt::diff;
using V2 = Vector<double, 2>;
using V2f = Vector<float, 2>;
using M12 = Eigen::Matrix<double, 1, 2>;
using M22 = Matrix<double, 2, 2>;
using VX = Vector<double, Dynamic>;
using MX = Matrix<double, Dynamic, Dynamic>;
// i-th residual of a user function of two parameters
extern "C" __attribute__((const)) double u_f(int i, double a, double b) noexcept;
extern "C" __attribute__((const)) double u_s(int i, double a) noexcept;

struct Pose {
  using Scalar = double;
  static constexpr Index Dims = 2;
  double a, b;
  Pose &operator+=(const auto &d) {
    a += d[0];
    b += d[1];
    return *this;
  }
};
static double A(const V2 &x) { return x[0]; }
static double B(const V2 &x) { return x[1]; }
static double A(const V2f &x) { return x[0]; }
static double B(const V2f &x) { return x[1]; }
static double A(const M12 &x) { return x(0, 0); }
static double B(const M12 &x) { return x(0, 1); }
static double A(const VX &x) { return x[0]; }
static double B(const VX &x) { return x[1]; }
static double A(const std::vector<double> &x) { return x[0]; }
static double B(const std::vector<double> &x) { return x[1]; }
static double A(const std::array<double, 2> &x) { return x[0]; }
static double B(const std::array<double, 2> &x) { return x[1]; }
static double A(const std::pair<double, double> &x) { return x.first; }
static double B(const std::pair<double, double> &x) { return x.second; }
static double A(const Pose &x) { return x.a; }
static double B(const Pose &x) { return x.b; }

template <typename X> static double f1(const X &x) { return u_f(0, A(x), B(x)); }
template <typename X> static V2 f2(const X &x) { return V2(u_f(0, A(x), B(x)), u_f(1, A(x), B(x))); }
template <typename X> static VX fx(const X &x) {
  VX r(2);
  r[0] = u_f(0, A(x), B(x));
  r[1] = u_f(1, A(x), B(x));
  return r;
}
template <typename X> static M22 fm(const X &x) {
  M22 r;
  r(0, 0) = u_f(0, A(x), B(x));
  r(1, 0) = u_f(1, A(x), B(x));
  r(0, 1) = u_f(2, A(x), B(x));
  r(1, 1) = u_f(3, A(x), B(x));
  return r;
}
template <typename R> static void putr(double *&o, const R &r) {
  if constexpr (std::is_scalar_v<R>)
    *o++ = r;
  else
    for (int j = 0; j < r.cols(); ++j)
      for (int i = 0; i < r.rows(); ++i) *o++ = r(i, j);
}
template <typename X, typename F> static void eval(const X &x, const F &f, int method, double h, double *o) {
  const auto [r, J] = NumEval(x, f, (Method)method, h);
  putr(o, r);
  putr(o, J);
  *o++ = A(x);
  *o++ = B(x);
  putr(o, EstimateNumJac(x, f, (Method)method, h));
}
static M12 row(const double *p) { return M12(p[0], p[1]); }
static VX dyn(const double *p) {
  VX v(2);
  v << p[0], p[1];
  return v;
}
#define X_v2 V2(p[0], p[1])
#define X_row row(p)
#define X_vx dyn(p)
#define X_vec std::vector<double>{p[0], p[1]}
#define X_arr std::array<double, 2>{p[0], p[1]}
#define X_pair std::pair<double, double>(p[0], p[1])
#define X_pose Pose{p[0], p[1]}
#define E(n, F)                                                            \
  extern "C" void vp_e_##n##_##F(const double *p, int method, double h, double *o) { \
    const auto x = X_##n;                                                  \
    eval(x, [](const auto &y) { return F(y); }, method, h, o);                        \
  }
E(v2, f1) E(v2, f2) E(v2, fx) E(v2, fm) E(row, f2) E(vx, f1) E(vx, f2) E(vx, fx) E(vec, f2) E(arr, f2) E(pair, f2) E(pose, f2) E(pose, f1)
extern "C" void vp_e_float(const float *p, int method, float h, double *o) {
  const V2f x(p[0], p[1]);
  const auto [r, J] = NumEval(x, [](const V2f &y) { return V2f((float)f1(y), (float)u_f(1, A(y), B(y))); }, (Method)method, h);
  for (int i = 0; i < 2; ++i) *o++ = r[i];
  for (int j = 0; j < 2; ++j)
    for (int i = 0; i < 2; ++i) *o++ = J(i, j);
}
// other accepted signatures
extern "C" void vp_e_sig2(const double *p, int method, double h, double *o) {
  eval(V2(p[0], p[1]), [](const V2 &y, auto &) { return f2(y); }, method, h, o);
}
extern "C" void vp_e_sig3(const double *p, int method, double h, double *o) {
  eval(V2(p[0], p[1]), [](const V2 &y, auto &, auto &) { return f2(y); }, method, h, o);
}
// scalar parameter
extern "C" void vp_s_1(double x, int method, double h, double *o) {
  const auto [r, J] = NumEval(x, [](double y) { return u_s(0, y); }, (Method)method, h);
  o[0] = r;
  o[1] = J(0, 0);
  o[2] = x;
}
extern "C" void vp_s_2(double x, int method, double h, double *o) {
  const auto [r, J] = NumEval(x, [](double y) { return V2(u_s(0, y), u_s(1, y)); }, (Method)method, h);
  o[0] = r[0];
  o[1] = r[1];
  o[2] = J(0, 0);
  o[3] = J(1, 0);
  o[4] = x;
}
// default method and step
extern "C" void vp_s_default(double x, double *o) { o[0] = EstimateNumJac(x, [](double y) { return u_s(0, y); })(0, 0); }
// gradient and Hessian functions
template <typename C> static void putc(double *&o, const C &c) {
  const Cost k(c);
  *o++ = k.cost;
  *o++ = k.num_resisuals;
}
template <typename X, typename F> static void num1(X x, const F &f, int method, double h, double *o) {
  X y = x;
  auto acc = CreateNumDiffFunc1(y, f, (Method)method, h);
  V2 g;
  putc(o, acc(x, g));
  putr(o, g);
  std::nullptr_t nul;
  putc(o, acc(x, nul));
}
template <typename X, typename F> static void num2(X x, const F &f, int method, double h, double *o) {
  X y = x;
  auto acc = CreateNumDiffFunc2(y, f, (Method)method, h);
  V2 g;
  M22 H;
  putc(o, acc(x, g, H));
  putr(o, g);
  putr(o, H);
  std::nullptr_t nul;
  putc(o, acc(x, nul, nul));
  V2 g2;
  putc(o, acc(x, g2, nul));
  putr(o, g2);
}
#define G(n, F)                                                                     \
  extern "C" void vp_g1_##n##_##F(const double *p, int method, double h, double *o) { \
    const auto x = X_##n;                                                           \
    auto f = [](const auto &y) { return F(y); };                                     \
    num1(x, f, method, h, o);                                                       \
  }                                                                                 \
  extern "C" void vp_g2_##n##_##F(const double *p, int method, double h, double *o) { \
    const auto x = X_##n;                                                           \
    auto f = [](const auto &y) { return F(y); };                                     \
    num2(x, f, method, h, o);                                                       \
  }
G(v2, f1) G(v2, f2) G(v2, fx) G(vx, f2) G(vx, fx) G(vec, f2) G(pose, f2)
