#include "matrix_prog.hpp"
namespace mp {
Matrix<Expression>* lib_mbin_a(int op, const Mat& a, const Mat& b, int st) {
  return visit2(a, b, [&](auto& x, auto& y) {
    switch (op) {
    case B_ADD: return make(x + y, st);
    case B_SUB: return make(x - y, st);
    case B_MUL: return make(x * y, st);
    default: return make(x ^ y, st);
    }
  });
}
const char* bin_name(int o) { static const char* n[] = {"+", "-", "*", "^", "/", "%", "|concatV|", "|concatH|"}; return n[o]; }
const char* un_name(int o) {
  static const char* n[] = {"SinM", "CosM", "ExpM", "LogM", "SqrtM", "TanhM", "SigmoidM", "ReLUM", "LeakyReLUM", "AbsM", "transpose", "inv", "det", "trace", "vec",
    "Sigma", "SigmaROW", "SigmaCOLUMN", "broadcast", "broadcastROW", "broadcastCOLUMN", "SoftMax", "SoftMaxROW", "SoftMaxCOLUMN", "MatrixFrobeniusNorm", "pow0", "pow1", "pow2", "pow3", "MatrixExp4", "MatrixLog4", "CubeM", "RecipM", "pow4to13", "MatrixExp0to12", "MatrixLog1to12", "MatrixExp", "MatrixLog", "MatrixExp22of6x"};
  return n[o];
}
const char* mix_name(int o) { static const char* n[] = {"s+M", "M+s", "s-M", "M-s", "s*M", "M*s", "M/s"}; return n[o]; }
RM ref_mbin(int op, const RM& a, const RM& b) {
  switch (op) {
  case B_ADD: return a + b;
  case B_SUB: return a - b;
  case B_MUL: return a * b;
  case B_HAD: return a ^ b;
  case B_DIV: return a / b;
  case B_MOD: return a % b;
  case B_CATV: return concat<ConcatAxis::VERTICAL>(a, b);
  default: return concat<ConcatAxis::HORIZONTAL>(a, b);
  }
}
RM ref_mun(int op, const RM& a, size_t n) {
  switch (op) {
  case U_SIN: return SinM(a);
  case U_COS: return CosM(a);
  case U_EXP: return ExpM(a);
  case U_LOG: return LogM(a);
  case U_SQRT: return SqrtM(a);
  case U_TANH: return TanhM(a);
  case U_SIGM: return SigmoidM(a);
  case U_RELU: return ReLUM(a);
  case U_LRELU: return LeakyReLUM(a);
  case U_ABS: return AbsM(a);
  case U_T: return transpose(a);
  case U_INV: return inv(a);
  case U_DET: return det(a);
  case U_TRACE: return trace(a);
  case U_VEC: return vec(a);
  case U_SIG: return Sigma(a);
  case U_SIGR: return Sigma<Axis::ROW>(a);
  case U_SIGC: return Sigma<Axis::COLUMN>(a);
  case U_BRO: return broadcast(a, n);
  case U_BROR: return broadcast<Axis::ROW>(a, n);
  case U_BROC: return broadcast<Axis::COLUMN>(a, n);
  case U_SOFT: return SoftMax(a);
  case U_SOFTR: return SoftMax<Axis::ROW>(a);
  case U_SOFTC: return SoftMax<Axis::COLUMN>(a);
  case U_FROB: return MatrixFrobeniusNorm(a);
  case U_POW0: return mp::pow<0>(a);
  case U_POW1: return mp::pow<1>(a);
  case U_POW2: return mp::pow<2>(a);
  case U_POW3: return mp::pow<3>(a);
  case U_MEXP: return MatrixExp<4>(a);
  case U_MLOG: return MatrixLog<4>(a);
  case U_RECIP: return RecipM(a);
  case U_POWH: {
    RM o = a;
    for (int i = 1; i < pow_len[n]; ++i) o = o * a;
    return o;
  }
  case U_EXPH: {
    RM o = eye(a.g, a.r), p = o;
    LT f = 1;
    for (int i = 1; i <= exp_len[n]; ++i) { p = i > 1 ? p * a : a; f *= (ref::ld)i; o = o + p / f; }
    return o;
  }
  case U_LOGH: {
    RM d = eye(a.g, a.r) - a, p = d, o = (LT)(-1) * d;
    for (int i = 2; i <= log_len[n]; ++i) { p = p * d; o = o - p / (LT)(ref::ld)i; }
    return o;
  }
  case U_MEXPD: return MatrixExp(a);
  case U_MLOGD: return MatrixLog(a);
  case U_MEXP22: return MatrixExp<22>((LT)6 * a);
  default: return a ^ (a ^ a);
  }
}
RM ref_mix(int op, int s, const RM& a) {
  R q{a.g, s};
  switch (op) {
  case M_ADDL: return q + a;
  case M_ADDR: return a + q;
  case M_SUBL: return q - a;
  case M_SUBR: return a - q;
  case M_MULL: return q * a;
  case M_MULR: return a * q;
  default: return a / q;
  }
}
} // namespace mp
