// cost accumulation
#include "prelude.h"
using V3 = Vector<double, 3>;
using V3f = Vector<float, 3>;
using M22 = Matrix<double, 2, 2>;
using VX = Vector<double, Dynamic>;
static void put(double *out, const Cost &c) {
  out[0] = c.cost;
  out[1] = c.num_resisuals;
  out[2] = c.inlier_ratio;
  out[3] = c.isValid() ? 1 : 0;
  out[4] = c.NumInliers();
  out[5] = c.NumOutliers();
  out[6] = (double)c;
}
extern "C" void vp_default(double *out) { put(out, Cost()); }
extern "C" void vp_scalar(double a, double *out) { put(out, Cost(a)); }
extern "C" void vp_full(double a, int n, float r, double *out) { put(out, Cost(a, n, r)); }
extern "C" void vp_count(double a, int n, double *out) { put(out, Cost(a, n)); }
extern "C" void vp_vec(const V3 *x, double *out) { put(out, Cost(*x)); }
extern "C" void vp_vecr(const V3 *x, float r, double *out) { put(out, Cost(*x, r)); }
extern "C" void vp_vecf(const V3f *x, double *out) { put(out, Cost(*x)); }
extern "C" void vp_mat(const M22 *x, double *out) { put(out, Cost(*x)); }
extern "C" void vp_dyn(const double *x, double *out) {
  const VX v = V3::Map(x);
  put(out, Cost(v));
}
extern "C" void vp_assign(double a, int n, float r, const V3 *x, double *out) {
  Cost c(a, n, r);
  c = *x;
  put(out, c);
}
extern "C" void vp_assign_mat(double a, int n, float r, const M22 *x, double *out) {
  Cost c(a, n, r);
  c = *x;
  put(out, c);
}
extern "C" void vp_dynm(const double *x, double *out) {
  const Matrix<double, Dynamic, Dynamic> v = M22::Map(x);
  put(out, Cost(v));
}
extern "C" void vp_add_dyn(double a, int n, float r, const double *x, double *out) {
  Cost c(a, n, r);
  c += Matrix<double, Dynamic, Dynamic>(M22::Map(x));
  put(out, c);
}
extern "C" void vp_add(double a, int n, float r, double b, int k, float s, double *out) {
  Cost c(a, n, r);
  c += Cost(b, k, s);
  put(out, c);
}
extern "C" void vp_add_zero(double b, int k, float s, double *out) {
  Cost c;
  c += Cost(b, k, s);
  put(out, c);
}
extern "C" void vp_add_vec(double a, int n, float r, const V3 *x, double *out) {
  Cost c(a, n, r);
  c += *x;
  put(out, c);
}
extern "C" void vp_add_mat(double a, int n, float r, const M22 *x, double *out) {
  Cost c(a, n, r);
  c += *x;
  put(out, c);
}
extern "C" void vp_add_self(double a, int n, float r, double *out) {
  Cost c(a, n, r);
  c += c;
  put(out, c);
}
extern "C" void vp_add_scalar(double a, int n, float r, double b, double *out) {
  Cost c(a, n, r);
  c += Cost(b);
  put(out, c);
}
extern "C" void vp_addres(double a, int n, float r, int k, int j, double *out) {
  Cost c(a, n, r);
  c.AddResiduals(k, j);
  put(out, c);
}
extern "C" void vp_cmp(double a, int n, float r, double b, int k, float s, double *out) {
  const Cost c(a, n, r), d(b, k, s);
  out[0] = c < d ? 1 : 0;
  out[1] = c <= d ? 1 : 0;
  out[2] = c < b ? 1 : 0;
  out[3] = c <= b ? 1 : 0;
}
extern "C" void vp_cmpf(double a, int n, float r, float b, double *out) {
  const Cost c(a, n, r);
  out[0] = c < b ? 1 : 0;
  out[1] = c <= b ? 1 : 0;
}
