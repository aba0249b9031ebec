// every robust loss, for every kind of derivative request
#include "prelude.h"
using namespace tinyopt::losses;
using Row3 = RowVector<double, 3>;
using V3 = Vector<double, 3>;
using M32 = Matrix<double, 3, 2>;

template <typename P>
static void put(double *out, const P &p) {
  out[0] = p.first;
  for (int i = 0; i < p.second.size(); ++i) out[1 + i] = p.second.reshaped()[i];
}

#define ROBUST(L)                                                                                              \
  extern "C" double vp_##L##_v(double n2, double th2) { return L(n2, th2); }                                   \
  extern "C" float vp_##L##_vf(float n2, float th2) { return L(n2, th2); }                                     \
  extern "C" void vp_##L##_s(double n2, double th2, double *out) {                                             \
    const auto p = L(n2, th2, true);                                                                           \
    out[0] = p.first;                                                                                          \
    out[1] = p.second;                                                                                         \
  }                                                                                                            \
  extern "C" void vp_##L##_sf(float n2, float th2, float *out) {                                               \
    const auto p = L(n2, th2, true);                                                                           \
    out[0] = p.first;                                                                                          \
    out[1] = p.second;                                                                                         \
  }                                                                                                            \
  extern "C" void vp_##L##_j(double n2, double th2, const Row3 *J, double *out) { put(out, L(n2, th2, *J)); }  \
  extern "C" void vp_##L##_p(double n2, double th2, const Row3 *J, double *out) {                              \
    put(out, L(std::make_pair(n2, *J), th2));                                                                  \
  }                                                                                                            \
  extern "C" double vp_##L##Loss_v(const V3 *x, double th2) { return L##Loss(*x, th2); }                       \
  extern "C" void vp_##L##Loss_b(const V3 *x, double th2, double *out) { put(out, L##Loss(*x, th2, true)); }   \
  extern "C" void vp_##L##Loss_j(const V3 *x, double th2, const M32 *J, double *out) {                         \
    put(out, L##Loss(*x, th2, *J));                                                                            \
  }                                                                                                            \
  extern "C" double vp_##L##Loss_sv(double x, double th2) { return L##Loss(x, th2); }

ROBUST(Truncated)
ROBUST(Huber)
ROBUST(Tukey)
ROBUST(Arctan)
ROBUST(Cauchy)
ROBUST(GemanMcClure)
ROBUST(BlakeZisserman)
