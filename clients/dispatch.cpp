// Optimize() with any solver type, for each kind of user function.  Running an
// optimizer is an opaque call whose output is marked by vp_mark.
#include "prelude.h"
extern "C" {
void vpx_caller(const void *x) noexcept;
__attribute__((const)) double u_opt(int) noexcept;
__attribute__((const)) uint16_t u_iters(int) noexcept;
}
extern "C" void vp_mark(Output *p, int id) {
  new (p) Output();
  p->num_iters = id;
  p->stop_reason = (StopReason)id;
  p->final_rerr_dec = id;
  p->num_failures = id;
}
template <typename X, typename F> static inline void go(int type, X &x, const F &f, double *o) {
  Options opt;
  opt.solver_type = (Options::Solver)type;
  any_log(opt);
  opt.min_error = u_opt(0);
  opt.min_rerr_dec = u_opt(1);
  opt.min_step_norm2 = u_opt(2);
  opt.min_grad_norm2 = u_opt(3);
  opt.max_duration_ms = u_opt(4);
  opt.grad_clipping = u_opt(5);
  opt.lm.damping_init = u_opt(6);
  opt.lm.good_factor = u_opt(7);
  opt.lm.bad_factor = u_opt(8);
  opt.gd.lr = u_opt(9);
  opt.hessian.check_min_H_diag = u_opt(10);
  opt.max_iters = u_iters(0);
  vpx_caller(&x);
  const Output out = Optimize(x, f, opt);
  o[0] = out.num_iters;
  o[1] = (int)out.stop_reason;
  o[2] = out.final_rerr_dec;
  o[3] = out.num_failures;
  o[4] = out.num_diff_used;
}
#define ROOT(name) extern "C" void vp_disp_##name(int type, double *p, double *o)
// residuals, automatic differentiation
ROOT(ad_scalar) { go(type, *p, [](const auto &x) { return x * x - 2.0; }, o); }
ROOT(ad_vec2) { go(type, *(Vec2 *)p, [](const auto &x) { return x[0] * x[1] - 2.0; }, o); }
ROOT(ad_vecx) {
  VecX v(2);
  v << p[0], p[1];
  go(type, v, [](const auto &x) { return x[0] * x[0] - 2.0; }, o);
}
ROOT(ad_vec2_res2) { go(type, *(Vec2 *)p, [](const auto &x) { return (2.0 * x).eval(); }, o); }
// residuals, numerical differentiation
ROOT(nd_scalar) { go(type, *p, [](const double &x) { return x * x - 2.0; }, o); }
// accumulators
struct Fill {
  template <typename G> static double put(G &g) {
    if constexpr (!traits::is_nullptr_v<G>) g[0] = 0;
    return 1.0;
  }
};
ROOT(acc_auto2) { go(type, *(Vec2 *)p, [](const auto &, auto &g, auto &) { return Fill::put(g); }, o); }
ROOT(acc_vec2) { go(type, *(Vec2 *)p, [](const Vec2 &, auto &g, auto &) { return Fill::put(g); }, o); }
ROOT(acc_mat2) { go(type, *(Vec2 *)p, [](const Vec2 &, auto &g, Mat2 &) { return Fill::put(g); }, o); }
ROOT(acc_vecx) { go(type, *(VecX *)p, [](const VecX &, auto &g, MatX &) { return Fill::put(g); }, o); }
ROOT(acc_sparse) { go(type, *(VecX *)p, [](const auto &, auto &g, SparseMatrix<double> &) { return Fill::put(g); }, o); }
// gradient only
ROOT(grad_vec2) { go(type, *(Vec2 *)p, [](const Vec2 &, auto &g) { return Fill::put(g); }, o); }
ROOT(grad_vecx) { go(type, *(VecX *)p, [](const VecX &, auto &g) { return Fill::put(g); }, o); }
ROOT(grad_auto) { go(type, *(Vec2 *)p, [](const auto &, auto &g) { return Fill::put(g); }, o); }
// an optimizer object given an explicit number of iterations
template <typename S, typename X, typename F> static inline void lim(int k, X &x, const F &f) {
  S a{Options()}, b{Options()};
  a(x, f, k);
  b.Optimize(x, f, k);
}
#define LIM(name, S, X, ...) \
  extern "C" void vp_lim_##name(int k, double *p) { lim<S>(k, *(X *)p, __VA_ARGS__); }
LIM(lm_ad, lm::Optimizer<Mat2>, Vec2, [](const auto &x) { return x[0] * x[1] - 2.0; })
LIM(gn_ad1, gn::Optimizer<Mat1>, double, [](const auto &x) { return x * x - 2.0; })
LIM(gd_ad, gd::Optimizer<Vec2>, Vec2, [](const auto &x) { return x[0] * x[1] - 2.0; })
LIM(lm_nd, lm::Optimizer<Mat1>, double, [](const double &x) { return x * x - 2.0; })
LIM(gd_nd, gd::Optimizer<Vec1>, double, [](const double &x) { return x * x - 2.0; })
LIM(lm_acc, lm::Optimizer<Mat2>, Vec2, [](const auto &, auto &g, auto &) { return Fill::put(g); })
LIM(gd_acc, gd::Optimizer<Vec2>, Vec2, [](const auto &, auto &g) { return Fill::put(g); })
extern "C" void vp_types(double *o) {
  *o++ = (int)Options::Solver::LevenbergMarquardt;
  *o++ = (int)Options::Solver::GaussNewton;
  *o++ = (int)Options::Solver::GradientDescent;
}
// the aliases name the algorithms
extern "C" void vp_alias(double *o) {
  using namespace solvers;
  *o++ = std::is_same_v<lm::Optimizer<Mat2>, Optimizer_<SolverLM<Mat2>>>;
  *o++ = std::is_same_v<gn::Optimizer<Mat2>, Optimizer_<SolverGN<Mat2>>>;
  *o++ = std::is_same_v<gd::Optimizer<Vec2>, Optimizer_<SolverGD<Vec2>>>;
  *o++ = std::is_same_v<lm::Solver<Mat2>, SolverLM<Mat2>>;
  *o++ = std::is_same_v<gn::Solver<Mat2>, SolverGN<Mat2>>;
  *o++ = std::is_same_v<gd::Solver<Vec2>, SolverGD<Vec2>>;
  *o++ = std::is_same_v<lm::SparseSolver<>, SolverLM<SparseMat>>;
  *o++ = std::is_same_v<gn::SparseSolver<>, SolverGN<SparseMat>>;
}
