// Statements that give an existing matrix expression a new meaning: assignment, and extension by itself.
#include "matrix_prog.hpp"
namespace mp {
void lib_assign(int op, Matrix<Expression>& m, const Mat& a, const Mat& b) {
  visit2<EVT>(a, b, [&](auto& x, auto& y) -> Matrix<Expression>* {
    switch (op) {
    case B_ADD: m = x + y; break;
    case B_SUB: m = x - y; break;
    case B_MUL: m = x * y; break;
    default: m = x ^ y;
    }
    return nullptr;
  });
}
void lib_step(int f, Matrix<Expression>& m, const Mat& it) {
  visit1<EVT>(it, [&](auto& x) -> Matrix<Expression>* {
    switch (f) {
    case X_ADD: m = m + x; break;
    case X_RSUB: m = x - m; break;
    case X_HAD: m = m ^ x; break;
    case X_AXPY: m = m + (Type)0.5 * x; break;
    case X_MUL: m = m * x; break;
    case X_RMUL: m = x * m; break;
    case X_SINADD: m = SinM(m) + x; break;
    case X_HADSUB: m = x - (m ^ x); break;
    case X_DIVEXP: m = m / ExpM(x); break;
    case X_CATV: m = concat<ConcatAxis::VERTICAL>(m, x); break;
    case X_CATH: m = concat<ConcatAxis::HORIZONTAL>(x, m); break;
    default: m = x + m * transpose(x); break;
    }
    return nullptr;
  });
}
void lib_step1(int f, Matrix<Expression>& m, Variable* s) {
  switch (f) {
  case Y_SIN: m = SinM(m); break;
  case Y_HALF: m = (Type)0.5 * m; break;
  case Y_T: m = transpose(m); break;
  case Y_TWO: m = (Type)2 - m; break;
  case Y_DBL: m = m + m; break;
  case Y_LOGISTIC: m = m - (Type)0.25 * (m ^ m); break;
  case Y_SQ: m = m * m; break;
  case Y_GRAM: m = transpose(m) * m; break;
  case Y_VEC: m = vec(m); break;
  case Y_SUM: m = Sigma(m); break;
  case Y_TRACE: m = trace(m); break;
  case Y_VAR: m = (*s) * m; break;
  case Y_VARADD: m = m + (*s); break;
  case Y_TANH: m = TanhM(m); break;
  default: m = ExpM((Type)(-1) * m) ^ m; break;
  }
}
} // namespace mp
