// automatic differentiation of opaque user functions
#include "prelude.h"
#include <tinyopt/diff/auto_diff.h>
#include <tinyopt/diff/optimize_autodiff.h>
#include <array>
#include <vector>
using namespace tinyopt::diff;
using V2 = Vector<double, 2>;
using V2f = Vector<float, 2>;
using M22 = Matrix<double, 2, 2>;
using VX = Vector<double, Dynamic>;
using MX = Matrix<double, Dynamic, Dynamic>;
template <typename T> using R2 = Eigen::Matrix<T, 1, 2>;
// value and partial derivatives of the i-th residual of a user function
extern "C" __attribute__((const)) double u_f(int i, double a, double b) noexcept;
extern "C" __attribute__((const)) double u_fa(int i, double a, double b) noexcept;
extern "C" __attribute__((const)) double u_fb(int i, double a, double b) noexcept;
static double F(int i, double a, double b) { return u_f(i, a, b); }
template <typename T, int N> static Jet<T, N> F(int i, const Jet<T, N> &a, const Jet<T, N> &b) {
  Jet<T, N> r;
  r.a = (T)u_f(i, a.a, b.a);
  r.v = (T)u_fa(i, a.a, b.a) * a.v + (T)u_fb(i, a.a, b.a) * b.v;
  return r;
}

template <typename T> struct Pose {
  using Scalar = T;
  static constexpr Index Dims = 2;
  T a, b;
  Pose &operator+=(const auto &d) {
    a += d[0];
    b += d[1];
    return *this;
  }
  template <typename U> Pose<U> cast() const { return Pose<U>{U(a), U(b)}; }
};
template <typename T> struct Poly {
  using Scalar = T;
  Vector<T, Dynamic> c;
  Index dims() const { return c.size(); }
  Poly &operator+=(const auto &d) {
    c += d;
    return *this;
  }
  template <typename U> Poly<U> cast() const { return Poly<U>{c.template cast<U>()}; }
};
template <typename T> auto A(const Eigen::MatrixBase<T> &x) { return x.derived().coeff(0, 0); }
template <typename T> auto B(const Eigen::MatrixBase<T> &x) { return x.rows() == 1 ? x.derived().coeff(0, 1) : x.derived().coeff(1, 0); }
template <typename T> T A(const std::vector<T> &x) { return x[0]; }
template <typename T> T B(const std::vector<T> &x) { return x[1]; }
template <typename T> T A(const std::array<T, 2> &x) { return x[0]; }
template <typename T> T B(const std::array<T, 2> &x) { return x[1]; }
template <typename T> T A(const std::pair<T, T> &x) { return x.first; }
template <typename T> T B(const std::pair<T, T> &x) { return x.second; }
template <typename T> T A(const Pose<T> &x) { return x.a; }
template <typename T> T B(const Pose<T> &x) { return x.b; }
template <typename T> T A(const Poly<T> &x) { return x.c[0]; }
template <typename T> T B(const Poly<T> &x) { return x.c[1]; }

template <typename X> static auto f1(const X &x) { return F(0, A(x), B(x)); }
template <typename X> static auto f2(const X &x) {
  using T = std::decay_t<decltype(A(x))>;
  Vector<T, 2> r;
  r[0] = F(0, A(x), B(x));
  r[1] = F(1, A(x), B(x));
  return r;
}
template <typename X> static auto fx(const X &x) {
  using T = std::decay_t<decltype(A(x))>;
  Vector<T, Dynamic> r(2);
  r[0] = F(0, A(x), B(x));
  r[1] = F(1, A(x), B(x));
  return r;
}
template <typename X> static auto fr(const X &x) {
  using T = std::decay_t<decltype(A(x))>;
  R2<T> r;
  r[0] = F(0, A(x), B(x));
  r[1] = F(1, A(x), B(x));
  return r;
}
template <typename X> static auto fm(const X &x) {
  using T = std::decay_t<decltype(A(x))>;
  Matrix<T, 2, 2> r;
  r(0, 0) = F(0, A(x), B(x));
  r(1, 0) = F(1, A(x), B(x));
  r(0, 1) = F(2, A(x), B(x));
  r(1, 1) = F(3, A(x), B(x));
  return r;
}
// second residual does not depend on x
template <typename X> static auto fk(const X &x) {
  using T = std::decay_t<decltype(A(x))>;
  Vector<T, 2> r;
  r[0] = F(0, A(x), B(x));
  r[1] = T(7.0);
  return r;
}
template <typename X> static auto fkx(const X &x) {
  using T = std::decay_t<decltype(A(x))>;
  Matrix<T, Dynamic, Dynamic> r(1, 2);
  r(0, 0) = F(0, A(x), B(x));
  r(0, 1) = T(7.0);
  return r;
}
// nothing depends on x
template <typename X> static auto fc(const X &x) {
  using T = std::decay_t<decltype(A(x))>;
  return T(7.0);
}
template <typename S> static void putr(double *&o, const S &r) {
  if constexpr (std::is_scalar_v<S>)
    *o++ = r;
  else
    for (int j = 0; j < r.cols(); ++j)
      for (int i = 0; i < r.rows(); ++i) *o++ = r(i, j);
}
template <typename X, typename Fn> static void eval(const X &x, const Fn &f, double *o) {
  const auto [r, J] = Eval(x, f);
  putr(o, r);
  putr(o, J);
  putr(o, CalculateJac(x, f));
  *o++ = A(x);
  *o++ = B(x);
}
static VX dyn(const double *p) {
  VX v(2);
  v << p[0], p[1];
  return v;
}
#define X_v2 V2(p[0], p[1])
#define X_row R2<double>(p[0], p[1])
#define X_vx dyn(p)
#define X_vec std::vector<double>{p[0], p[1]}
#define X_arr std::array<double, 2>{p[0], p[1]}
#define X_pair std::pair<double, double>(p[0], p[1])
#define X_pose Pose<double>{p[0], p[1]}
#define X_poly Poly<double>{dyn(p)}
#define E(n, F)                                                \
  extern "C" void vp_e_##n##_##F(const double *p, double *o) { \
    const auto x = X_##n;                                      \
    eval(x, [](const auto &y) { return F(y); }, o);            \
  }
E(v2, f1) E(v2, f2) E(v2, fx) E(v2, fm) E(v2, fr) E(v2, fk) E(row, f2) E(row, f1) E(vx, f1) E(vx, f2) E(vx, fx) E(vx, fm) E(vx, fk) E(vx, fkx)
E(vec, f1) E(vec, f2) E(vec, fk) E(arr, f2) E(pair, f2) E(pose, f2) E(pose, f1) E(poly, f2) E(poly, fm) E(poly, fkx)
E(v2, fc) E(vx, fc) E(vec, fc) E(pose, fc) E(poly, fc)
extern "C" void vp_e_sig2(const double *p, double *o) {
  eval(V2(p[0], p[1]), [](const auto &y, std::nullptr_t &) { return f2(y); }, o);
}
extern "C" void vp_e_sig3(const double *p, double *o) {
  eval(V2(p[0], p[1]), [](const auto &y, std::nullptr_t &, std::nullptr_t &) { return f2(y); }, o);
}
extern "C" void vp_e_float(const float *p, double *o) {
  const V2f x(p[0], p[1]);
  const auto [r, J] = Eval(x, [](const auto &y) { return f2(y); });
  putr(o, r);
  putr(o, J);
}
// matrix parameter: columns in storage order
extern "C" __attribute__((const)) double u_g(int i, double a, double b, double c, double d) noexcept;
extern "C" __attribute__((const)) double u_gd(int i, int j, double a, double b, double c, double d) noexcept;
template <typename X> static auto g2(const X &x) {
  using T = typename X::Scalar;
  Vector<T, 2> r;
  for (int i = 0; i < 2; ++i) {
    const auto &a = x(0, 0), &b = x(1, 0), &c = x(0, 1), &d = x(1, 1);
    if constexpr (std::is_scalar_v<T>) {
      r[i] = u_g(i, a, b, c, d);
    } else {
      r[i].a = u_g(i, a.a, b.a, c.a, d.a);
      r[i].v = u_gd(i, 0, a.a, b.a, c.a, d.a) * a.v + u_gd(i, 1, a.a, b.a, c.a, d.a) * b.v + u_gd(i, 2, a.a, b.a, c.a, d.a) * c.v +
               u_gd(i, 3, a.a, b.a, c.a, d.a) * d.v;
    }
  }
  return r;
}
extern "C" void vp_m_22(const double *p, double *o) {
  const M22 x = M22::Map(p);
  const auto [r, J] = Eval(x, [](const auto &y) { return g2(y); });
  putr(o, r);
  putr(o, J);
}
extern "C" void vp_m_x(const double *p, double *o) {
  const MX x = M22::Map(p);
  const auto [r, J] = Eval(x, [](const auto &y) { return g2(y); });
  putr(o, r);
  putr(o, J);
}
// scalar parameter
extern "C" __attribute__((const)) double u_s(int i, double a) noexcept;
extern "C" __attribute__((const)) double u_sd(int i, double a) noexcept;
static double S(int i, double a) { return u_s(i, a); }
static Jet<double, 1> S(int i, const Jet<double, 1> &a) { return Jet<double, 1>(u_s(i, a.a), u_sd(i, a.a) * a.v); }
extern "C" void vp_s_1(double x, double *o) {
  const auto [r, J] = Eval(x, [](const auto &y) { return S(0, y); });
  o[0] = r;
  o[1] = J[0];
}
extern "C" void vp_s_2(double x, double *o) {
  const auto [r, J] = Eval(x, [](const auto &y) {
    Vector<std::decay_t<decltype(y)>, 2> v;
    v[0] = S(0, y);
    v[1] = S(1, y);
    return v;
  });
  o[0] = r[0];
  o[1] = r[1];
  o[2] = J(0, 0);
  o[3] = J(1, 0);
}
// optimization: what the solver receives at two successive points
template <typename C> static void putc(double *&o, const C &c) {
  const Cost k(c);
  *o++ = k.cost;
  *o++ = k.num_resisuals;
}
struct Opts {
  struct {
    bool enable = false;
    bool print_J_jet = false;
  } log;
#ifdef VP_LOG
  Opts() { log.enable = u_log(0), log.print_J_jet = u_log(6); }
#endif
};
template <bool NLLS, int D, typename X, typename Fn> static void opt(X x, const X &x2, const Fn &f, double *o) {
  auto run = [&](auto &z, const auto &acc, const auto &) {
    std::nullptr_t nul;
    {
      Vector<double, D> g = Vector<double, D>::Zero(2);
      Matrix<double, D, D> H = Matrix<double, D, D>::Zero(2, 2);
      putc(o, acc(z, g, H));
      putr(o, g);
      putr(o, H);
    }
    z = x2;
    {
      Vector<double, D> g = Vector<double, D>::Zero(2);
      Matrix<double, D, D> H = Matrix<double, D, D>::Zero(2, 2);
      putc(o, acc(z, g, H));
      putr(o, g);
      putr(o, H);
    }
    putc(o, acc(z, nul, nul));
    Vector<double, D> g = Vector<double, D>::Zero(2);
    putc(o, acc(z, g, nul));
    putr(o, g);
    *o++ = A(z);
    *o++ = B(z);
    return 0;
  };
  OptimizeWithAutoDiff<NLLS>(x, f, run, Opts());
}
#define P(n, F)                                                                 \
  extern "C" void vp_o_##n##_##F(const double *p, const double *q, double *o) { \
    const auto x = X_##n;                                                       \
    std::swap(p, q);                                                            \
    const auto y = X_##n;                                                       \
    opt<true, 2>(x, y, [](const auto &z) { return F(z); }, o);                  \
  }                                                                             \
  extern "C" void vp_ox_##n##_##F(const double *p, const double *q, double *o) { \
    const auto x = X_##n;                                                       \
    std::swap(p, q);                                                            \
    const auto y = X_##n;                                                       \
    opt<true, Dynamic>(x, y, [](const auto &z) { return F(z); }, o);             \
  }
P(v2, f1) P(v2, f2) P(v2, fx) P(v2, fm) P(v2, fr) P(v2, fk) P(row, f2) P(row, f1) P(vx, f1) P(vx, f2) P(vx, fx) P(vx, fm) P(vx, fk) P(vx, fkx)
P(vec, f1) P(vec, f2) P(vec, fk) P(arr, f2) P(pair, f2) P(pose, f2) P(pose, f1) P(poly, f2) P(poly, fm) P(poly, fkx)
P(v2, fc) P(vx, fc) P(vec, fc) P(pose, fc) P(poly, fc)
extern "C" void vp_os(double x, double x2, double *o) {
  auto run = [&](auto &z, const auto &acc, const auto &) {
    for (int k = 0; k < 2; ++k) {
      Vector<double, 1> g = Vector<double, 1>::Zero();
      Matrix<double, 1, 1> H = Matrix<double, 1, 1>::Zero();
      putc(o, acc(z, g, H));
      *o++ = g[0];
      *o++ = H(0, 0);
      z = x2;
    }
    std::nullptr_t nul;
    putc(o, acc(z, nul, nul));
    return 0;
  };
  OptimizeWithAutoDiff<true>(x, [](const auto &y) { return S(0, y); }, run, Opts());
}
extern "C" void vp_os2(double x, double x2, double *o) {
  auto run = [&](auto &z, const auto &acc, const auto &) {
    for (int k = 0; k < 2; ++k) {
      Vector<double, 1> g = Vector<double, 1>::Zero();
      Matrix<double, 1, 1> H = Matrix<double, 1, 1>::Zero();
      putc(o, acc(z, g, H));
      *o++ = g[0];
      *o++ = H(0, 0);
      z = x2;
    }
    std::nullptr_t nul;
    putc(o, acc(z, nul, nul));
    return 0;
  };
  OptimizeWithAutoDiff<true>(x, [](const auto &y) {
    Vector<std::decay_t<decltype(y)>, 2> v;
    v[0] = S(0, y);
    v[1] = S(1, y);
    return v;
  }, run, Opts());
}
// general cost: the cost is the function itself
extern "C" void vp_cost(const double *p, double *o) {
  V2 x(p[0], p[1]);
  auto run = [&](auto &z, const auto &acc, const auto &) {
    std::nullptr_t nul;
    o[0] = Cost(acc(z, nul, nul)).cost;
    V2 g = V2::Zero();
    o[1] = Cost(acc(z, g, nul)).cost;
    return 0;
  };
  OptimizeWithAutoDiff<false>(x, [](const auto &z) { return f1(z); }, run, Opts());
}
