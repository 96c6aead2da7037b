#include "matrix_prog.hpp"
namespace mp {
Matrix<Expression>* lib_conv(const Mat& a, const Mat& b, size_t sx, size_t sy, size_t px, size_t py, int st) {
  return visit2<EVT>(a, b, [&](auto& x, auto& y) { return make(conv(x, y, sx, sy, px, py), st); });
}
} // namespace mp
