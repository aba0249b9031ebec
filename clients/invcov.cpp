// decompositions: dense and sparse solve, inverse and the covariance queries built on them
#include "prelude.h"
using namespace tinyopt::solvers;
template <typename T> static void put(const T &r, int n, double *o) {
  *o++ = r.has_value();
  for (int i = 0; i < n; ++i) *o++ = r ? (double)r->data()[i] : 0.0;
}
#ifndef VP_SOLVE_ONLY
using M2 = Mat2;
using M3 = Mat3;
using M2f = Mat2f;
#define DENSE(n, M, V, N)                                                               \
  extern "C" void vp_solve_##n(const M::Scalar *a, const M::Scalar *b, double *o) {     \
    const M A = M::Map(a, N, N);                                                        \
    const V B = V::Map(b, N);                                                           \
    put(SolveLDLT(A, B), N, o);                                                         \
  }                                                                                     \
  extern "C" void vp_solven_##n(const M::Scalar *a, const M::Scalar *b, double *o) {    \
    const M A = M::Map(a, N, N);                                                        \
    const V B = V::Map(b, N);                                                           \
    put(SolveLDLT(A, -B), N, o);                                                        \
  }                                                                                     \
  extern "C" void vp_inv_##n(const M::Scalar *a, double *o) { put(InvCov(M(M::Map(a, N, N))), N * N, o); }
DENSE(2, Mat2, Vec2, 2) DENSE(3, Mat3, Vec3, 3) DENSE(2f, Mat2f, Vec2f, 2) DENSE(x, MatX, VecX, 2)
extern "C" void vp_inv_1(const double *a, double *o) { put(InvCov(Mat1(Mat1::Map(a))), 1, o); }
extern "C" void vp_inv_1x(const double *a, double *o) { put(InvCov(MatX(MatX::Map(a, 1, 1))), 1, o); }
extern "C" void vp_inv_blk(const double *a, double *o) {
  const Mat3 A = Mat3::Map(a);
  put(InvCov(A.block<2, 2>(1, 1)), 4, o);
}
extern "C" void vp_inv_empty(double *o) { *o = InvCov(MatX(0, 0)).has_value(); }
template <typename S> static void queries(S &s, const double *a, double *o) {
  s.InitWith(Vec2(1, 1), Mat2(Mat2::Map(a)));
  put(s.Covariance(), 4, o);
  o[5] = s.MaxStdDev(true);
  o[6] = s.MaxStdDev(false);
}
extern "C" void vp_query_gn(const double *a, double *o) {
  SolverGN<Mat2> s;
  queries(s, a, o);
}
extern "C" void vp_query_lm(const double *a, double *o) {
  SolverLM<Mat2> s;
  queries(s, a, o);
}
#endif
// sparse; vpx_value: the abstract value of a sparse matrix
using Sp = SparseMatrix<double>;
extern "C" double vpx_value(const Sp *) noexcept;
template <typename T> static void puts(const T &r, double *o) {
  o[0] = r.has_value();
  o[1] = r ? vpx_value(&*r) : 0.0;
}
extern "C" void vp_sp_solve(const Sp *A, const double *b, double *o) {
  const VecX B = VecX::Map(b, 2);
  put(SolveLDLT(*A, B), 2, o);
}
#ifndef VP_SOLVE_ONLY
extern "C" void vp_sp_inv(const Sp *A, double shift, double *o) { puts(InvCov(*A, shift), o); }
extern "C" void vp_sp_inv0(const Sp *A, double *o) { puts(InvCov(*A), o); }
extern "C" void vp_sp_gn(const Sp *A, const double *b, double *o) {
  Options opt;
  SolverGN<Sp> s(opt);
  s.InitWith(VecX(VecX::Map(b, 2)), *A);
  puts(s.Covariance(), o);
}
#endif
