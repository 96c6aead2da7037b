#include "matrix_prog.hpp"
namespace mp {
Matrix<Expression>* lib_mbin_b(int op, const Mat& a, const Mat& b, int st) {
  return visit2<EVT>(a, b, [&](auto& x, auto& y) {
    switch (op) {
    case B_DIV: return make(x / y, st);
    case B_MOD: return make(x % y, st);
    case B_CATV: return make(concat<ConcatAxis::VERTICAL>(x, y), st);
    default: return make(concat<ConcatAxis::HORIZONTAL>(x, y), st);
    }
  });
}
} // namespace mp
