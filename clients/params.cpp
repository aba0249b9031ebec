// parameter dimensions, updates and casts
#include "prelude.h"
#include <tinyopt/diff/jet.h>
#include <array>
#include <utility>
#include <vector>
using traits::params_trait;
using traits::DynDims;
using V2 = Vector<double, 2>;
using V3 = Vector<double, 3>;
using R3 = Eigen::Matrix<double, 1, 3>;
using M22 = Matrix<double, 2, 2>;
using M23 = Matrix<double, 2, 3>;
using VX = Vector<double, Dynamic>;
using MX = Matrix<double, Dynamic, Dynamic>;
using M2X = Matrix<double, 2, Dynamic>;
using J2 = diff::Jet<double, 2>;
template <typename T> using vec = std::vector<T>;
template <typename T, std::size_t N> using ar = std::array<T, N>;
template <typename A, typename B> using pr = std::pair<A, B>;

// user type with a compile-time size
template <typename T> struct Pose {
  using Scalar = T;
  static constexpr Index Dims = 3;
  T a, b, c;
  Pose &operator+=(const auto &d) {
    a += d[0];
    b += d[1];
    c += d[2];
    return *this;
  }
  template <typename U> Pose<U> cast() const { return Pose<U>{U(a), U(b), U(c)}; }
};
// user type with a run-time size
struct Poly {
  using Scalar = double;
  VX c;
  Index dims() const { return c.size(); }
  Poly &operator+=(const auto &d) {
    c += d;
    return *this;
  }
};
// user type declaring a run-time size
struct Poly2 {
  using Scalar = double;
  static constexpr Index Dims = Dynamic;
  VX c;
  Index dims() const { return c.size(); }
  Poly2 &operator+=(const auto &d) {
    c += d;
    return *this;
  }
  template <typename U> Vector<U, Dynamic> cast() const { return c.template cast<U>(); }
};

// reading and writing the components in order
template <typename S> struct io {
  static void set(S &v, const double *&p) {
    if constexpr (requires { v.coeffRef(0); }) {
      for (int j = 0; j < v.cols(); ++j)
        for (int i = 0; i < v.rows(); ++i) v(i, j) = (typename S::Scalar)*p++;
    } else {
      v = (S)*p++;
    }
  }
  static void get(const S &v, double *&o) {
    if constexpr (requires { v.coeff(0); }) {
      for (int j = 0; j < v.cols(); ++j)
        for (int i = 0; i < v.rows(); ++i) io<typename S::Scalar>::get(v(i, j), o);
    } else {
      *o++ = (double)v;
    }
  }
};
template <> struct io<J2> {
  static void get(const J2 &v, double *&o) { *o++ = v.v[0] == 0 && v.v[1] == 0 ? v.a : 1e99; }
};
template <typename T> struct io<vec<T>> {
  static void set(vec<T> &v, const double *&p) { for (auto &e : v) io<T>::set(e, p); }
  static void get(const vec<T> &v, double *&o) { for (auto &e : v) io<T>::get(e, o); }
};
template <typename T, std::size_t N> struct io<ar<T, N>> {
  static void set(ar<T, N> &v, const double *&p) { for (auto &e : v) io<T>::set(e, p); }
  static void get(const ar<T, N> &v, double *&o) { for (auto &e : v) io<T>::get(e, o); }
};
template <typename A, typename B> struct io<pr<A, B>> {
  static void set(pr<A, B> &v, const double *&p) { io<A>::set(v.first, p); io<B>::set(v.second, p); }
  static void get(const pr<A, B> &v, double *&o) { io<A>::get(v.first, o); io<B>::get(v.second, o); }
};
template <typename T> struct io<Pose<T>> {
  static void set(Pose<T> &v, const double *&p) { v.a = (T)*p++; v.b = (T)*p++; v.c = (T)*p++; }
  static void get(const Pose<T> &v, double *&o) { io<T>::get(v.a, o); io<T>::get(v.b, o); io<T>::get(v.c, o); }
};
template <> struct io<Poly> {
  static void set(Poly &v, const double *&p) { io<VX>::set(v.c, p); }
  static void get(const Poly &v, double *&o) { io<VX>::get(v.c, o); }
};
template <> struct io<Poly2> {
  static void set(Poly2 &v, const double *&p) { io<VX>::set(v.c, p); }
  static void get(const Poly2 &v, double *&o) { io<VX>::get(v.c, o); }
};

template <typename T> static void update(T v, int n, const double *x, const double *d, double *out) {
  io<T>::set(v, x);
  *out++ = (double)DynDims(v);
  *out++ = (double)params_trait<T>::dims(v);
  *out++ = params_trait<T>::Dims == Dynamic ? -1 : (double)params_trait<T>::Dims;
  const VX delta = VX::Map(d, n);
  params_trait<T>::PlusEq(v, delta);
  io<T>::get(v, out);
}
// fixed-size displacement, negated
template <typename T, int n> static void updatef(T v, const double *x, const double *d, double *out) {
  io<T>::set(v, x);
  const Vector<double, n> delta = Vector<double, n>::Map(d);
  params_trait<T>::PlusEq(v, -delta);
  io<T>::get(v, out);
}
template <typename T, typename U> static void castto(T v, const double *x, double *out) {
  io<T>::set(v, x);
  const auto w = params_trait<T>::template cast<U>(v);
  io<std::decay_t<decltype(w)>>::get(w, out);
}
#define R(n, T, N, init)                                                                                                  \
  extern "C" void vp_p_##n(const double *x, const double *d, double *out) { update<T>(init, N, x, d, out); }              \
  extern "C" void vp_f_##n(const double *x, const double *d, double *out) { updatef<T, N>(init, x, d, out); }             \
  extern "C" void vp_c_##n(const double *x, double *out) { castto<T, float>(init, x, out); }                              \
  extern "C" void vp_j_##n(const double *x, double *out) { castto<T, J2>(init, x, out); }
#define RP(n, T, N, init)                                                                                                 \
  extern "C" void vp_p_##n(const double *x, const double *d, double *out) { update<T>(init, N, x, d, out); }              \
  extern "C" void vp_f_##n(const double *x, const double *d, double *out) { updatef<T, N>(init, x, d, out); }
#define C(...) __VA_ARGS__
#define NONE
R(double, double, 1, double())
R(float, float, 1, float())
R(v2, V2, 2, V2())
R(v3, V3, 3, V3())
R(r3, R3, 3, R3())
R(m22, M22, 4, M22())
R(m23, M23, 6, M23())
R(vx, VX, 3, VX(3))
R(mx, MX, 6, MX(2, 3))
R(m2x, M2X, 4, M2X(2, 2))
R(vec, vec<double>, 3, vec<double>(3))
R(vecf, vec<float>, 2, vec<float>(2))
R(vec_v2, vec<V2>, 4, vec<V2>(2))
R(vec_m22, vec<M22>, 8, vec<M22>(2))
R(arr, C(ar<double, 3>), 3, C(ar<double, 3>()))
R(arr_v2, C(ar<V2, 2>), 4, C(ar<V2, 2>()))
R(arr_vx, C(ar<VX, 2>), 3, C(ar<VX, 2>{VX(2), VX(1)}))
R(arr_arr, C(ar<ar<double, 2>, 2>), 4, C(ar<ar<double, 2>, 2>()))
R(pair_dd, C(pr<double, double>), 2, C(pr<double, double>()))
R(pair_v2d, C(pr<V2, double>), 3, C(pr<V2, double>()))
R(pair_dv2, C(pr<double, V2>), 3, C(pr<double, V2>()))
R(pair_v2v3, C(pr<V2, V3>), 5, C(pr<V2, V3>()))
R(pair_vxv2, C(pr<VX, V2>), 5, C(pr<VX, V2>(VX(3), V2())))
R(pair_v2vx, C(pr<V2, VX>), 5, C(pr<V2, VX>(V2(), VX(3))))
R(pair_vxvx, C(pr<VX, VX>), 3, C(pr<VX, VX>(VX(1), VX(2))))
R(pair_m22d, C(pr<M22, double>), 5, C(pr<M22, double>()))
R(pair_pair, C(pr<pr<double, V2>, ar<double, 2>>), 5, C(pr<pr<double, V2>, ar<double, 2>>()))
R(pair_vec, C(pr<vec<V2>, double>), 5, C(pr<vec<V2>, double>(vec<V2>(2), 0)))
R(arr_pair, C(ar<pr<double, V2>, 2>), 6, C(ar<pr<double, V2>, 2>()))
R(vec_arr, C(vec<ar<double, 2>>), 4, C(vec<ar<double, 2>>(2)))
R(vec_pair, C(vec<pr<double, double>>), 4, C(vec<pr<double, double>>(2)))
static vec<VX> ragged() {
  vec<VX> v(3);
  v[0].resize(2);
  v[1].resize(1);
  v[2].resize(4);
  return v;
}
R(vec_vx, vec<VX>, 7, ragged())
R(arr_vx3, C(ar<VX, 3>), 7, C(ar<VX, 3>{VX(1), VX(4), VX(2)}))
using V5 = Vector<double, 5>;
using V7 = Vector<double, 7>;
R(v5, V5, 5, V5())
R(v7, V7, 7, V7())
R(vx6, VX, 6, VX(6))
R(vec5, vec<double>, 5, vec<double>(5))
R(arr5, C(ar<double, 5>), 5, C(ar<double, 5>()))
R(vec_v3, vec<V3>, 12, vec<V3>(4))
R(pose, Pose<double>, 3, Pose<double>())
R(pair_pose, C(pr<Pose<double>, double>), 4, C(pr<Pose<double>, double>()))
R(vec_pose, vec<Pose<double>>, 6, vec<Pose<double>>(2))
RP(poly, Poly, 3, Poly{VX(3)})
R(poly2, Poly2, 3, Poly2{VX(3)})
RP(pair_poly, C(pr<Poly, V2>), 5, C(pr<Poly, V2>(Poly{VX(3)}, V2())))
// scalar displacement of a scalar parameter
extern "C" void vp_scalar_scalar(double x, double d, double *out) {
  params_trait<double>::PlusEq(x, d);
  out[0] = x;
}
