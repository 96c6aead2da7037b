#include "matrix_prog.hpp"
namespace mp {
template <class X> static Matrix<Expression>* go(int op, const Sc& s, X& x, int st) {
  auto f = [&](auto& q) -> Matrix<Expression>* {
    switch (op) {
    case M_ADDL: return make(q + x, st);
    case M_ADDR: return make(x + q, st);
    case M_SUBL: return make(q - x, st);
    case M_SUBR: return make(x - q, st);
    case M_MULL: return make(q * x, st);
    case M_MULR: return make(x * q, st);
    default: return make(x / q, st);
    }
  };
  switch (s.k) {
  case Sc::N: { Type t = s.n; return f(t); }
  case Sc::V: return f(*s.v);
  case Sc::P: return f(*s.p);
  default: return f(*s.e);
  }
}
Matrix<Expression>* lib_mix(int op, const Sc& s, const Mat& a, int st) {
  return visit1<EVT>(a, [&](auto& x) { return go(op, s, x, st); });
}
} // namespace mp
