// Runs whose number of parameters or memory is unusable.  The parameters have any
// run-time size; building the system (the first use of the user's function) ends
// the analysed path, moving the parameters and calling the user are visible calls.
#include "prelude.h"
using namespace tinyopt::solvers;
extern "C" {
[[noreturn]] void vpx_build() noexcept;
[[noreturn]] void vpx_sizes(int grad, int rows, int cols) noexcept;
void vpx_user() noexcept;
void vpx_begin() noexcept;
void vpx_move() noexcept;
bool vpx_oom() noexcept;
bool vpx_mismatch() noexcept;
bool vpx_overflow() noexcept;
}
struct Params {
  int n;
};
namespace tinyopt::traits {
template <> struct params_trait<Params> {
  using Scalar = double;
  static constexpr Index Dims = Dynamic;
  static Index dims(const Params &p) { return p.n; }
  template <typename T2> static Params cast(const Params &p) { return p; }
  static void PlusEq(Params &, const auto &) { vpx_move(); }
};
}  // namespace tinyopt::traits

template <typename Base> struct First : Base {
  First(const Options &o = {}) : Base(o) {}
  template <typename X, typename A> bool Build(const X &, const A &, bool = true) { vpx_build(); }
  template <typename X, typename A> double Evaluate(const X &, const A &, bool) { vpx_build(); }
};
// any outcome of resizing
template <typename Base> struct AnyResize : First<Base> {
  AnyResize(const Options &o = {}) : First<Base>(o) {}
  bool resize(int) {
    if (vpx_oom()) throw std::bad_alloc();
    if (vpx_overflow()) throw std::bad_array_new_length();
    if (vpx_mismatch()) throw std::invalid_argument("mismatch");
    return false;
  }
};
template <typename Solver> static inline void run(int n, int arg, double *o) {
  Options opt;
  any_log(opt);
  opt.hessian.save_last = false;
  Optimizer_<Solver> s(opt);
  Params x{n};
  const auto acc = [](const auto &, auto &, auto &) {
    vpx_user();
    return Cost(0.0);
  };
  vpx_begin();
  const Output out = s.OptimizeAcc(x, acc, arg);
  o[0] = (int)out.stop_reason;
  o[1] = x.n;
  o[2] = out.Succeeded();
  o[3] = out.final_cost.isValid();
}
template <typename Solver> static inline void step(int n, double *o) {
  Options opt;
  any_log(opt);
  Optimizer_<Solver> s(opt);
  Params x{n};
  const auto acc = [](const auto &, auto &, auto &) {
    vpx_user();
    return Cost(0.0);
  };
  Output out;
  vpx_begin();
  const auto st = s.Step(x, acc, out);
  o[0] = (int)out.stop_reason;
  o[1] = x.n;
  o[2] = st.first || st.second.has_value();
  o[3] = out.final_cost.isValid();
}
// an optimizer first run with m parameters (0: not at all), then with n
template <typename G> static inline int rows(const G &g) { return g.rows(); }
template <typename Solver> static inline void fit(int n, int m) {
  Options opt;
  any_log(opt);
  opt.hessian.save_last = false;
  Optimizer_<Solver> s(opt);
  Params x{m}, y{n};
  if (m > 0) s.OptimizeAcc(x, [](const auto &, auto &, auto &) { return Cost(0.0, 0); }, 1);
  s.OptimizeAcc(y, [](const auto &, auto &g, auto &H) {
    if constexpr (traits::is_nullptr_v<decltype(g)>) {
      // only the cost is wanted
    } else if constexpr (traits::is_nullptr_v<decltype(H)>)
      vpx_sizes(g.rows(), g.rows(), g.rows());
    else
      vpx_sizes(g.rows(), H.rows(), H.cols());
    return Cost(0.0);
  }, 1);
}
#define FIT(name, ...) \
  extern "C" void vp_fit_##name(int n, int m) { fit<__VA_ARGS__>(n, m); }
FIT(lm, SolverLM<MatX>)
FIT(gn, SolverGN<MatX>)
FIT(gd, SolverGD<VecX>)
FIT(sp_lm, SolverLM<SparseMatrix<double>>)
FIT(sp_gn, SolverGN<SparseMatrix<double>>)
#define RUN(name, ...) \
  extern "C" void vp_step_##name(int n, int, double *o) { step<__VA_ARGS__>(n, o); } \
  extern "C" void vp_size_##name(int n, int arg, double *o) { run<__VA_ARGS__>(n, arg, o); }
RUN(any_lm, AnyResize<SolverLM<MatX>>)
RUN(any_gn, AnyResize<SolverGN<MatX>>)
RUN(any_gd, AnyResize<SolverGD<VecX>>)
RUN(any_lm2, AnyResize<SolverLM<Mat2>>)
RUN(fix_lm, First<SolverLM<Mat2>>)
RUN(fix_gn, First<SolverGN<Mat2>>)
RUN(fix_gd, First<SolverGD<Vec2>>)
RUN(dyn_lm, First<SolverLM<MatX>>)
RUN(dyn_gn, First<SolverGN<MatX>>)
RUN(dyn_gd, First<SolverGD<VecX>>)
RUN(sp_lm, First<SolverLM<SparseMatrix<double>>>)
RUN(sp_gn, First<SolverGN<SparseMatrix<double>>>)
extern "C" void vp_names(double *o) {
  *o++ = (int)StopReason::kSkipped;
  *o++ = (int)StopReason::kOutOfMemory;
}
