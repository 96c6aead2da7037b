#include "matrix_prog.hpp"
// a user-defined elementwise operator
static Type cube(Type x) { return x * x * x; }
static Type dcube(Type x) { return (Type)3 * x * x; }
UNARY_MATRIX_OPERATOR(CubeM, cube, dcube)
namespace mp {
Matrix<Expression>* lib_mun_c(int op, const Mat& a, size_t, int st) {
  return visit1<EV>(a, [&](auto& x) {
    switch (op) {
    case U_SOFT: return make(SoftMax(x), st);
    case U_SOFTR: return make(SoftMax<Axis::ROW>(x), st);
    case U_SOFTC: return make(SoftMax<Axis::COLUMN>(x), st);
    case U_FROB: return make(MatrixFrobeniusNorm(x), st);
    case U_POW0: return make(::pow<0>(x), st);
    case U_POW1: return make(::pow<1>(x), st);
    case U_POW2: return make(::pow<2>(x), st);
    case U_POW3: return make(::pow<3>(x), st);
    case U_MEXP: return make(MatrixExp<4>(x), st);
    case U_MLOG: return make(MatrixLog<4>(x), st);
    case U_RECIP: return make(RecipM(x), st);
    default: return make(CubeM(x), st);
    }
  });
}
} // namespace mp
