// an optimizer object used for two runs on different problems; every call of a user function is an event
#include "prelude.h"
using namespace tinyopt::solvers;
extern "C" {
__attribute__((const)) double u_g(int problem, int i, double a, double b) noexcept;
__attribute__((const)) double u_h(int problem, int i, double a, double b) noexcept;
__attribute__((const)) double u_c(int problem, double a, double b) noexcept;
double vpx_user(int problem, bool gradient, double a, double b) noexcept;
void vpx_run(int) noexcept;
}
template <int P, bool Event = true> struct Acc {
  static double cost(bool gradient, double a, double b) {
    if constexpr (Event) return vpx_user(P, gradient, a, b);
    else return u_c(P, a, b);
  }
  template <typename X, typename G> Cost operator()(const X &x, G &g) const {
    constexpr bool grad = !traits::is_nullptr_v<decltype(g)>;
    if constexpr (grad)
      for (int i = 0; i < g.size(); ++i) g[i] = u_g(P, i, x[0], x[1]);
    return Cost(cost(grad, x[0], x[1]), 2);
  }
  template <typename X, typename G, typename H> Cost operator()(const X &x, G &g, H &h) const {
    constexpr bool grad = !traits::is_nullptr_v<decltype(g)>;
    if constexpr (grad) {
      for (int i = 0; i < g.size(); ++i) g[i] = u_g(P, i, x[0], x[1]);
      for (int i = 0; i < h.size(); ++i) h.data()[i] = u_h(P, i, x[0], x[1]);
    }
    return Cost(cost(grad, x[0], x[1]), 2);
  }
};
static inline Options run_options(bool check) {
  Options opt;
  opt.min_error = 0;
  opt.min_rerr_dec = 0;
  opt.min_step_norm2 = 0;
  opt.min_grad_norm2 = 0;
  opt.max_consec_failures = 1;
  opt.check_final_cost = check;
  return opt;
}
#ifndef VP_RESET
template <typename O, typename X> static inline void runs(X &x, X &y, X &, bool check) {
  O opz(run_options(check));
  vpx_run(1);
  opz(x, Acc<1>(), 0);
  vpx_run(2);
  opz(y, Acc<2>(), 0);
}
#else
// the same problem after a reset and with a new optimizer
template <typename O, typename X> static inline void runs(X &x, X &y, X &z, bool check) {
  O opz(run_options(check));
  opz(x, Acc<1, false>(), 0);
  opz.reset();
  opz(y, Acc<2, false>(), 0);
  O fresh(run_options(check));
  fresh(z, Acc<2, false>(), 0);
}
#endif
#define RUNS(n, O, X)                                                                     \
  extern "C" void vp_runs_##n(const double *x, const double *y, bool check, double *o) {  \
    X a(2), b(2), c(2);                                                                   \
    a << x[0], x[1];                                                                      \
    b << y[0], y[1];                                                                      \
    c << y[0], y[1];                                                                      \
    runs<O, X>(a, b, c, check);                                                           \
    o[0] = a[0]; o[1] = a[1]; o[2] = b[0]; o[3] = b[1]; o[4] = c[0]; o[5] = c[1];         \
  }
RUNS(gn, gn::Optimizer<Mat2>, Vec2)
RUNS(lm, lm::Optimizer<Mat2>, Vec2)
RUNS(gnx, gn::Optimizer<MatX>, VecX)
RUNS(lmx, lm::Optimizer<MatX>, VecX)
RUNS(gd, gd::Optimizer<Vec2>, Vec2)
