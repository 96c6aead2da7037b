#include "matrix_prog.hpp"
namespace mp {
template <size_t... I> static Matrix<Expression>* pick(int op, Matrix<Expression>& x, size_t which, int st, std::index_sequence<I...>) {
  Matrix<Expression>* r = nullptr;
  if (op == U_POWH) ((I == which ? (void)(r = make(::pow<pow_len[I]>(x), st)) : (void)0), ...);
  else if (op == U_EXPH) ((I == which ? (void)(r = make(MatrixExp<exp_len[I]>(x), st)) : (void)0), ...);
  else ((I == which ? (void)(r = make(MatrixLog<log_len[I]>(x), st)) : (void)0), ...);
  return r;
}
Matrix<Expression>* lib_mhigh(int op, const Mat& a, size_t which, int st) {
  Matrix<Expression>& x = a.k == E ? a.e() : *make((Type)1 * a.v(), 0);
  return pick(op, x, which, st, std::make_index_sequence<8>{});
}
} // namespace mp
