#include "matrix_prog.hpp"
namespace mp {
Matrix<Expression>* lib_mexp_long(int op, const Mat& a, int st) {
  Matrix<Expression>& x = a.k == E ? a.e() : *make((Type)1 * a.v(), 0);
  if (op == U_MEXPD) return make(MatrixExp(x), st);
  Matrix<Expression>& y = *make((Type)6 * x, 0);
  return make(MatrixExp<22>(y), st);
}
} // namespace mp
