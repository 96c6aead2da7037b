#include "matrix_prog.hpp"
namespace mp {
Matrix<Expression>* lib_mlog_long(const Mat& a, int st) {
  Matrix<Expression>& x = a.k == E ? a.e() : *make((Type)1 * a.v(), 0);
  return make(MatrixLog(x), st);
}
} // namespace mp
