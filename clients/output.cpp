// the output structure: covariance, saved Hessian, classification of stop reasons
#include "prelude.h"
using namespace tinyopt::solvers;
extern "C" double u_h(int, double, double) noexcept __attribute__((const));
extern "C" double u_g(int, double, double) noexcept __attribute__((const));
extern "C" double u_c(double, double) noexcept __attribute__((const));
using Sp = SparseMatrix<double>;
extern "C" double vpx_value(const Sp *) noexcept;
template <typename T> static void put(const T &r, int n, double *o) {
  *o++ = r.has_value();
  for (int i = 0; i < n; ++i) *o++ = r ? (double)r->data()[i] : 0.0;
}
static inline void fill(Output &out, double cost, int count) {
  out.final_cost = Cost(cost, count);
  out.num_residuals = count;
}
extern "C" void vp_cov_x(const double *a, double cost, int count, bool rescaled, double *o) {
  Output out;
  fill(out, cost, count);
  out.final_hessian = MatX(MatX::Map(a, 2, 2));
  put(out.Covariance(rescaled), 4, o);
}
extern "C" void vp_cov_default(const double *a, double cost, int count, double *o) {
  Output out;
  fill(out, cost, count);
  out.final_hessian = MatX(MatX::Map(a, 2, 2));
  put(out.Covariance(), 4, o);
}
extern "C" void vp_cov_2(const double *a, double cost, int count, bool rescaled, double *o) {
  Output out;
  fill(out, cost, count);
  out.final_hessian = MatX(MatX::Map(a, 2, 2));
  put(out.Covariance<Mat2>(rescaled), 4, o);
}
extern "C" void vp_cov_3(const double *a, double cost, int count, bool rescaled, double *o) {
  Output out;
  fill(out, cost, count);
  out.final_hessian = MatX(MatX::Map(a, 3, 3));
  put(out.Covariance(rescaled), 9, o);
}
extern "C" void vp_cov_1(const double *a, double cost, int count, bool rescaled, double *o) {
  Output out;
  fill(out, cost, count);
  out.final_hessian = MatX(MatX::Map(a, 1, 1));
  put(out.Covariance(rescaled), 1, o);
}
extern "C" void vp_cov_none(double cost, int count, bool rescaled, double *o) {
  Output out;
  fill(out, cost, count);
  *o++ = out.has_final_hessian();
  *o++ = out.Covariance(rescaled).has_value();
  *o++ = out.Covariance<Sp>(rescaled).has_value();
}
extern "C" void vp_cov_kind(const double *a, double cost, int count, bool rescaled, double *o) {
  Output out;
  fill(out, cost, count);
  out.final_hessian = MatX(MatX::Map(a, 2, 2));
  *o++ = out.has_final_hessian();
  *o++ = out.Covariance<Sp>(rescaled).has_value();
}
// final Hessian of a run with the real solvers
template <typename O, typename X> static inline void last(X &x, bool save, int arg, double *o) {
  Options opt;
  opt.hessian.save_last = save;
  opt.min_error = 0;
  opt.min_rerr_dec = 0;
  opt.min_step_norm2 = 0;
  opt.min_grad_norm2 = 0;
  O opz(opt);
  const Output out = opz(x, [](const auto &x, auto &g, auto &H) {
    if constexpr (!traits::is_nullptr_v<decltype(g)>) {
      for (int i = 0; i < 2; ++i) g[i] = u_g(i, x[0], x[1]);
      for (int i = 0; i < 4; ++i) H.data()[i] = u_h(i, x[0], x[1]);
    }
    return Cost(u_c(x[0], x[1]), 2);
  }, arg);
  *o++ = out.has_final_hessian();
  if (out.has_final_hessian())
    for (int i = 0; i < 4; ++i) *o++ = out.final_hessian_dense().data()[i];
}
#define LAST(n, ...)                                              \
  extern "C" void vp_last_##n(const double *x, bool save, double *o) { \
    Vec2 p(x[0], x[1]);                                           \
    last<__VA_ARGS__>(p, save, 0, o);                             \
  }
LAST(gn, gn::Optimizer<Mat2>)
LAST(lm, lm::Optimizer<Mat2>)
LAST(gnx, gn::Optimizer<MatX>)
LAST(lmx, lm::Optimizer<MatX>)
// classification
// descriptions of stop reasons; no entry in any history
extern "C" void vpx_done(const std::string *) noexcept;
#define DESC(n, r)                                   \
  extern "C" void vp_desc_##n() {                    \
    Output out;                                      \
    out.stop_reason = StopReason::r;                 \
    const std::string s = StopReasonDescription(out); \
    vpx_done(&s);                                    \
  }                                                  \
  extern "C" void vp_desco_##n() {                   \
    Output out;                                      \
    out.stop_reason = StopReason::r;                 \
    const std::string s = StopReasonDescription(out, Options()); \
    vpx_done(&s);                                    \
  }
DESC(kOutOfMemory, kOutOfMemory) DESC(kSolverFailed, kSolverFailed) DESC(kSystemHasNaNOrInf, kSystemHasNaNOrInf) DESC(kSkipped, kSkipped)
DESC(kNone, kNone) DESC(kMinError, kMinError) DESC(kMinRelError, kMinRelError) DESC(kMinDeltaNorm, kMinDeltaNorm) DESC(kMinGradNorm, kMinGradNorm)
DESC(kMaxIters, kMaxIters) DESC(kMaxNoDecr, kMaxNoDecr) DESC(kMaxConsecNoDecr, kMaxConsecNoDecr) DESC(kTimedOut, kTimedOut) DESC(kUserStopped, kUserStopped)
extern "C" void vp_class_all(double *o) {
  const StopReason r[] = {kOutOfMemory, kSolverFailed, kSystemHasNaNOrInf, kSkipped, kNone, kMinError, kMinRelError, kMinDeltaNorm, kMinGradNorm,
                          kMaxIters, kMaxNoDecr, kMaxConsecNoDecr, kTimedOut, kUserStopped};
  for (auto x : r) {
    Output out;
    out.stop_reason = x;
    *o++ = (int)x;
    *o++ = out.Succeeded();
    *o++ = out.Converged();
  }
}
