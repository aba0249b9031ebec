// linear solvers fed by an opaque user accumulation
#include "prelude.h"
extern "C" __attribute__((const)) double u_c(double a, double b) noexcept;
extern "C" __attribute__((const)) int u_n(double a, double b) noexcept;
extern "C" __attribute__((const)) double u_g(int i, double a, double b) noexcept;
extern "C" __attribute__((const)) double u_q() noexcept;
extern "C" __attribute__((const)) double u_h(int i, int j, double a, double b) noexcept;
using namespace tinyopt::solvers;
static Options options(const double *d, bool ldlt, bool full, bool sq, bool half, bool norm, bool log) {
  Options o;
  o.grad_clipping = (float)d[0];
  o.hessian.check_min_H_diag = (float)d[1];
  o.gd.lr = (float)d[2];
  o.lm.damping_init = (float)d[3];
  o.lm.damping_range = {(float)d[4], (float)d[5]};
  o.lm.good_factor = (float)d[6];
  o.lm.bad_factor = (float)d[7];
  o.hessian.use_ldlt = ldlt;
  o.hessian.H_is_full = full;
  o.cost.use_squared_norm = sq;
  o.cost.downscale_by_2 = half;
  o.cost.normalize = norm;
  o.log.enable = log;
  o.log.print_failure = log;
  any_log(o);
  return o;
}
#define OPTS const double *d, bool ldlt, bool full, bool sq, bool half, bool norm, bool log
#define OPT options(d, ldlt, full, sq, half, norm, log)

// everything the user function is given is recorded: number of calls, point and what the storage held
struct User {
  int *calls;
  template <typename X, typename G> Cost operator()(const X &x, G &g) const {
    ++*calls;
    if constexpr (!std::is_null_pointer_v<std::decay_t<G>>)
      for (int i = 0; i < g.size(); ++i) g[i] += u_g(i, x[0], x[1]);
    return Cost(u_c(x[0], x[1]), u_n(x[0], x[1]));
  }
  template <typename X, typename G, typename H> Cost operator()(const X &x, G &g, H &h) const {
    const Cost c = (*this)(x, g);
    if constexpr (!std::is_null_pointer_v<std::decay_t<G>> && !std::is_null_pointer_v<std::decay_t<H>>)
      for (int j = 0; j < h.cols(); ++j)
        for (int i = 0; i < h.rows(); ++i) h(i, j) += u_h(i, j, x[0], x[1]);
    return c;
  }
  template <typename X, typename G> Cost operator()(const X &x, G &g, SparseMatrix<double> &h) const {
    const Cost c = (*this)(x, g);
    if constexpr (!std::is_null_pointer_v<std::decay_t<G>>) {
      h.reserve(4);
      for (int j = 0; j < 2; ++j)
        for (int i = 0; i < 2; ++i) h.coeffRef(i, j) += u_h(i, j, x[0], x[1]);
      h.makeCompressed();
    }
    return c;
  }
};
struct User1 {  // one parameter: not a function of x[1]
  int *calls;
  template <typename G, typename H> Cost operator()(const double &x, G &g, H &h) const {
    ++*calls;
    if constexpr (!std::is_null_pointer_v<std::decay_t<G>>) {
      g[0] += u_g(0, x, 0);
      h(0, 0) += u_h(0, 0, x, 0);
    }
    return Cost(u_c(x, 0), u_n(x, 0));
  }
};
template <typename H> static void putH(const H &h, double *&o) {
  for (int j = 0; j < h.cols(); ++j)
    for (int i = 0; i < h.rows(); ++i) *o++ = h.coeff(i, j);
}
template <typename S> static void report(S &s, bool ok, int calls, double *&o) {
  *o++ = ok;
  *o++ = calls;
  *o++ = s.cost().cost;
  *o++ = s.cost().num_resisuals;
  for (int i = 0; i < s.Gradient().size(); ++i) *o++ = s.Gradient()[i];
  if constexpr (!S::FirstOrder) putH(s.H(), o);
}
template <typename S> static void solve(const S &s, int n, double *&o) {
  const auto dx = s.Solve();
  *o++ = dx.has_value();
  for (int i = 0; i < n; ++i) *o++ = dx ? (double)(*dx)[i] : 0.0;
}
// build at two successive points
template <typename S, typename X, typename U = User> static void twice(S &s, const X &x, const X &y, int n, double *o) {
  for (int k = 0; k < 2; ++k) {
    int calls = 0;
    const bool ok = s.Build(k ? y : x, U{&calls});
    report(s, ok, calls, o);
    solve(s, n, o);
  }
}
// a few steps in between, then only the last state is reported; B: build, E: keep the system, g/q/b/f: good (without, with quality estimate), bad, failed step
template <typename S, typename X> static void sequence(S &s, const X &x, const X &y, const char *q, double *o) {
  int calls = 0;
  bool ok = s.Build(x, User{&calls});
  for (; *q; ++q) {
    if (*q == 'g') s.GoodStep(0);
    if (*q == 'q') s.GoodStep(u_q());
    if (*q == 'b') s.BadStep();
    if (*q == 'f') s.FailedStep();
    if (*q == 'r') s.reset();
    if (*q == 'B' || *q == 'E') {
      calls = 0;
      s.Rebuild(*q == 'B');
      ok = s.Build(y, User{&calls});
    }
  }
  report(s, ok, calls, o);
  putH(s.Hessian(), o);
  if constexpr (!traits::is_sparse_matrix_v<typename S::H_t>) solve(s, 2, o);
}
#ifndef VP_ONLY_SEQ
#define TWICE(name, S, X, N, ...)                                                 \
  extern "C" void vp_##name(OPTS, const double *x, const double *y, double *o) { \
    S s(OPT);                                                                     \
    twice<S, X __VA_ARGS__>(s, X(x[0], x[1]), X(y[0], y[1]), N, o);                 \
  }
#define TWICEX(name, S, V)                                                        \
  extern "C" void vp_##name(OPTS, const double *x, const double *y, double *o) { \
    S s(OPT);                                                                     \
    V a(2), b(2);                                                                 \
    a << x[0], x[1];                                                              \
    b << y[0], y[1];                                                              \
    twice<S, V>(s, a, b, 2, o);                                                   \
  }
TWICE(gn_2, SolverGN<Mat2>, Vec2, 2)
TWICE(gn_2f, SolverGN<Mat2f>, Vec2f, 2)
TWICEX(gn_x, SolverGN<MatX>, VecX)
TWICE(lm_2, SolverLM<Mat2>, Vec2, 2)
TWICE(lm_2f, SolverLM<Mat2f>, Vec2f, 2)
TWICEX(lm_x, SolverLM<MatX>, VecX)
TWICE(gd_2, SolverGD<Vec2>, Vec2, 2)
TWICE(gd_2f, SolverGD<Vec2f>, Vec2f, 2)
TWICEX(gd_x, SolverGD<VecX>, VecX)
extern "C" void vp_gn_1(OPTS, const double *x, const double *y, double *o) {
  SolverGN<Mat1> s(OPT);
  twice<SolverGN<Mat1>, double, User1>(s, x[0], y[0], 1, o);
}
extern "C" void vp_lm_1(OPTS, const double *x, const double *y, double *o) {
  SolverLM<Mat1> s(OPT);
  twice<SolverLM<Mat1>, double, User1>(s, x[0], y[0], 1, o);
}
// three parameters: the user's function still gets two numbers of the point
extern "C" void vp_gn_3(OPTS, const double *x, const double *y, double *o) {
  SolverGN<Mat3> s(OPT);
  twice<SolverGN<Mat3>, Vec3>(s, Vec3(x[0], x[1], 0), Vec3(y[0], y[1], 0), 3, o);
}
// cost evaluation alone
template <typename S> static void evaluate(S &s, const Vec2 &x, const Vec2 &y, double *o) {
  int calls = 0;
  s.Build(x, User{&calls});
  calls = 0;
  *o++ = s.Evaluate(y, User{&calls}, false);
  *o++ = s.cost().cost;
  *o++ = s.cost().num_resisuals;
  *o++ = s.Evaluate(y, User{&calls}, true);
  *o++ = s.cost().cost;
  *o++ = s.cost().num_resisuals;
  *o++ = calls;
  for (int i = 0; i < 2; ++i) *o++ = s.Gradient()[i];
  if constexpr (!S::FirstOrder)
    for (int j = 0; j < 2; ++j)
      for (int i = 0; i < 2; ++i) *o++ = s.H()(i, j);
}
#define EV(name, S)                                                               \
  extern "C" void vp_ev_##name(OPTS, const double *x, const double *y, double *o) { \
    S s(OPT);                                                                     \
    evaluate(s, Vec2(x[0], x[1]), Vec2(y[0], y[1]), o);                            \
  }
EV(gn, SolverGN<Mat2>) EV(lm, SolverLM<Mat2>) EV(gd, SolverGD<Vec2>)
#endif
#ifdef VP_LOG
extern "C" void vp_ctor_gn(OPTS, const double *, const double *, double *o) { *o = SolverGN<SparseMatrix<double>>(OPT).FirstOrder; }
extern "C" void vp_ctor_lm(OPTS, const double *, const double *, double *o) { *o = SolverLM<SparseMatrix<double>>(OPT).FirstOrder; }
#endif
#ifdef VP_SEQ
#define SEQ(q)                                                                      \
  extern "C" void vp_seq_##q(OPTS, const double *x, const double *y, double *o) { \
    SolverLM<Mat2> s(OPT);                                                          \
    sequence(s, Vec2(x[0], x[1]), Vec2(y[0], y[1]), #q, o);                          \
  }
#define SEQX(q, k, S)                                                               \
  extern "C" void vp_seq##k##_##q(OPTS, const double *x, const double *y, double *o) { \
    S s(OPT);                                                                       \
    VecX a(2), b(2);                                                                \
    a << x[0], x[1];                                                                \
    b << y[0], y[1];                                                                \
    sequence(s, a, b, #q, o);                                                       \
  }
#define SEQD(q) SEQX(q, x, SolverLM<MatX>)
#define SEQS(q) SEQX(q, s, SolverLM<SparseMatrix<double>>)
VP_SEQ
#endif
