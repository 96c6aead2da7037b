#include "matrix_prog.hpp"
namespace mp {
Matrix<Expression>* lib_mun_a(int op, const Mat& a, size_t, int st) {
  return visit1(a, [&](auto& x) {
    switch (op) {
    case U_SIN: return make(SinM(x), st);
    case U_COS: return make(CosM(x), st);
    case U_EXP: return make(ExpM(x), st);
    case U_LOG: return make(LogM(x), st);
    case U_SQRT: return make(SqrtM(x), st);
    case U_TANH: return make(TanhM(x), st);
    case U_SIGM: return make(SigmoidM(x), st);
#ifndef USE_COMPLEX_MATH
    case U_RELU: return make(ReLUM(x), st);
    case U_LRELU: return make(LeakyReLUM(x), st);
    default: return make(AbsM(x), st);
#else
    default: return make(SigmoidM(x), st);
#endif
    }
  });
}
Matrix<Expression>* lib_mun_b(int op, const Mat& a, size_t n, int st) {
  return visit1(a, [&](auto& x) {
    switch (op) {
    case U_T: return make(transpose(x), st);
    case U_INV: return make(inv(x), st);
    case U_DET: return make(det(x), st);
    case U_TRACE: return make(trace(x), st);
    case U_VEC: return make(vec(x), st);
    case U_SIG: return make(Sigma(x), st);
    case U_SIGR: return make(Sigma<Axis::ROW>(x), st);
    case U_SIGC: return make(Sigma<Axis::COLUMN>(x), st);
    case U_BRO: return make(broadcast(x, n), st);
    case U_BROR: return make(broadcast<Axis::ROW>(x, n), st);
    default: return make(broadcast<Axis::COLUMN>(x, n), st);
    }
  });
}
} // namespace mp
