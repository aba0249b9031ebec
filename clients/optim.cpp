// The optimisation loop and its single iteration, with the linear solver reduced
// to opaque outcomes.  Every outcome of a build (did it succeed, was it solved,
// cost, residual count, displacement, gradient) is fixed by the Build call.
#include "prelude.h"
using namespace tinyopt::solvers;
extern "C" {
bool vpx_build(double x0, double x1) noexcept;
bool vpx_solved() noexcept;
double vpx_cost() noexcept;
int vpx_count() noexcept;
double vpx_dx(int) noexcept;
double vpx_grad2() noexcept;
double vpx_grad(int) noexcept;
void vpx_good(double) noexcept;
void vpx_bad() noexcept;
void vpx_failed() noexcept;
void vpx_rebuild(bool) noexcept;
double vpx_hess(int) noexcept;
__attribute__((const)) double u_stddev(int) noexcept;
bool vpx_stop(double, double, double) noexcept;
bool vpx_stop2(double, double, double, double, double, int, int) noexcept;
void vpx_histories(const void *, const void *, const void *) noexcept;
}
static inline double at(double x, int) { return x; }
template <typename D> static inline double at(const MatrixBase<D> &x, int i) { return i < x.size() ? x[i] : 0.0; }

template <typename Base> struct Opaque : Base {
  using Vec = Vector<typename Base::Scalar, Base::Dims>;
  Opaque(const Options &o = {}) : Base(o) {}
  template <typename X, typename A> bool Build(const X &x, const A &, bool = true) {
    const bool b = vpx_build(at(x, 0), at(x, 1));
    solved_ = vpx_solved();
    this->cost_.cost = vpx_cost();
    this->cost_.num_resisuals = vpx_count();
    for (int i = 0; i < dx_.size(); ++i) dx_[i] = vpx_dx(i);
    for (int i = 0; i < dx_.size(); ++i) this->grad_[i] = vpx_grad(i);
    g2_ = vpx_grad2();
    return b;
  }
  std::optional<Vec> Solve() const {
    if (!solved_) return std::nullopt;
    return dx_;
  }
  double GradientSquaredNorm() const { return g2_; }
  void GoodStep(typename Base::Scalar q = 0) { vpx_good(q); }
  void BadStep(typename Base::Scalar = 0) { vpx_bad(); }
  void FailedStep() { vpx_failed(); }
  void Rebuild(bool b) { vpx_rebuild(b); }
  auto Hessian() const {
    Matrix<double, Base::Dims, Base::Dims> H;
    for (int i = 0; i < H.size(); ++i) H.data()[i] = vpx_hess(i);
    return H;
  }
  double MaxStdDev(bool b = true) const { return u_stddev(b); }
  bool solved_ = false;
  double g2_ = 0;
  Vec dx_;
};

struct Opt {
  float min_error, min_rerr, min_step, min_grad, max_ms;
};
static inline void set(Options &o, const Opt &v, uint8_t mcf, uint8_t mtf, bool quality, bool log) {
  o.min_error = v.min_error;
  o.min_rerr_dec = v.min_rerr;
  o.min_step_norm2 = v.min_step;
  o.min_grad_norm2 = v.min_grad;
  o.max_consec_failures = mcf;
  o.max_total_failures = mtf;
  o.use_step_quality_approx = quality;
  o.log.enable = log;
  any_log(o);
#ifdef VP_CB1
  o.stop_callback = [](double e, double d, double g) { return vpx_stop(e, d, g); };
#endif
#ifdef VP_CB2
  o.stop_callback2 = [](float e, const VecXf &d, const VecXf &g) { return vpx_stop2(e, at(d, 0), at(d, 1), at(g, 0), at(g, 1), d.size(), g.size()); };
#endif
}
struct In {
  double final_cost, final_rerr, duration;
};
template <typename Base, typename X>
static inline void step(const Opt *v, uint8_t mcf, uint8_t mtf, bool quality, bool log, const In *in, int nres, int iters, int fails, int consec,
                        X &x, double *o) {
  Options opt;
  set(opt, *v, mcf, mtf, quality, log);
  Optimizer_<Opaque<Base>> s(opt);
  Output out;
  out.final_cost = Cost(in->final_cost, nres);
  out.final_rerr_dec = in->final_rerr;
  out.num_residuals = nres;
  out.num_iters = iters;
  out.num_failures = fails;
  out.num_consec_failures = consec;
  out.duration_ms = in->duration;
  const auto acc = [](const auto &, auto &, auto &) { return Cost(0.0); };
  const auto st = s.Step(x, acc, out);
  *o++ = (int)out.stop_reason;
  *o++ = out.final_cost.cost;
  *o++ = out.final_cost.num_resisuals;
  *o++ = out.final_rerr_dec;
  *o++ = out.num_residuals;
  *o++ = out.num_iters;
  *o++ = out.num_failures;
  *o++ = out.num_consec_failures;
  *o++ = out.duration_ms;
  *o++ = st.first;
  *o++ = st.second.has_value();
  *o++ = st.second ? at(*st.second, 0) : 0.0;
  *o++ = st.second ? at(*st.second, 1) : 0.0;
  vpx_histories(&out.errs, &out.deltas2, &out.successes);
}
#define ARGS const Opt *v, uint8_t mcf, uint8_t mtf, bool quality, bool log, const In *in, int nres, int iters, int fails, int consec, double *x, double *o
#define PASS v, mcf, mtf, quality, log, in, nres, iters, fails, consec
extern "C" void vp_step_1(ARGS) { step<SolverLM<Mat1>>(PASS, *x, o); }
extern "C" void vp_step_2(ARGS) {
  Vec2 p(x[0], x[1]);
  step<SolverGN<Mat2>>(PASS, p, o);
  x[0] = p[0];
  x[1] = p[1];
}
extern "C" void vp_step_gd(ARGS) { step<SolverGD<Vec1>>(PASS, *x, o); }

template <typename Base, typename X>
static inline void run(const Opt *v, uint8_t mcf, uint8_t mtf, bool quality, bool log, bool final_check, bool save, uint16_t max_iters, int arg, X &x,
                       double *o) {
  Options opt;
  set(opt, *v, mcf, mtf, quality, log);
  opt.max_duration_ms = v->max_ms;
  opt.check_final_cost = final_check;
  opt.hessian.save_last = save;
  opt.max_iters = max_iters;
  Optimizer_<Opaque<Base>> s(opt);
  const auto acc = [](const auto &, auto &, auto &) { return Cost(0.0); };
  const Output out = s.OptimizeAcc(x, acc, arg);
  *o++ = (int)out.stop_reason;
  *o++ = out.final_cost.cost;
  *o++ = out.final_cost.num_resisuals;
  *o++ = out.final_rerr_dec;
  *o++ = out.num_residuals;
  *o++ = out.num_iters;
  *o++ = out.num_failures;
  *o++ = out.num_consec_failures;
  *o++ = out.duration_ms;
  *o++ = out.has_final_hessian();
  *o++ = at(x, 0);
  *o++ = at(x, 1);
  if constexpr (!Base::FirstOrder)
    if (out.has_final_hessian()) {
      const auto &H = out.final_hessian_dense();
      for (int i = 0; i < Base::Dims * Base::Dims; ++i) *o++ = H.data()[i];
    }
  vpx_histories(&out.errs, &out.deltas2, &out.successes);
}
#define RARGS const Opt *v, uint8_t mcf, uint8_t mtf, bool quality, bool log, bool final_check, bool save, uint16_t max_iters, int arg, double *x, double *o
#define RPASS v, mcf, mtf, quality, log, final_check, save, max_iters, arg
extern "C" void vp_run_1(RARGS) { run<SolverLM<Mat1>>(RPASS, *x, o); }
extern "C" void vp_run_2(RARGS) {
  Vec2 p(x[0], x[1]);
  run<SolverGN<Mat2>>(RPASS, p, o);
}
extern "C" void vp_run_gd(RARGS) { run<SolverGD<Vec1>>(RPASS, *x, o); }

// names used by the checks
extern "C" void vp_names(double *o) {
  const StopReason r[] = {StopReason::kNone, StopReason::kSkipped, StopReason::kSystemHasNaNOrInf, StopReason::kSolverFailed, StopReason::kMaxConsecNoDecr,
                          StopReason::kMaxNoDecr, StopReason::kMinError, StopReason::kMinRelError, StopReason::kMinDeltaNorm, StopReason::kMinGradNorm,
                          StopReason::kUserStopped, StopReason::kTimedOut, StopReason::kMaxIters, StopReason::kOutOfMemory};
  for (auto x : r) *o++ = (int)x;
  *o++ = FloatEpsilon<double>();
  *o++ = std::numeric_limits<double>::max();
  const Output out;
  *o++ = out.final_cost.cost;
  *o++ = out.final_cost.num_resisuals;
  *o++ = out.final_rerr_dec;
  *o++ = out.num_residuals;
  *o++ = out.num_iters;
  *o++ = out.num_failures;
  *o++ = out.num_consec_failures;
  *o++ = out.duration_ms;
}
