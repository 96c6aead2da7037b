#pragma once
#include "scalar_prog.hpp"
namespace sp {
struct ShareLib {
  using N = Type;
  template <class T> static Expression* ret(const T& t) { return &Expression::ExpressionFactory::CreateExpression(t); }
};
struct ShareRef {
  using N = LT;
  static int ret(ref::R r) { return r.i; }
};
#define SHARE_FREE(OP, f)                                                                                             \
  case ref::OP:                                                                                                       \
    switch (form) {                                                                                                   \
    case 0: return W::ret(a * f(a) + f(b) * a);                                                                       \
    case 1: return W::ret(f(a * b) * b + a);                                                                          \
    default: return W::ret(b - f(f(a) + b) * a);                                                                      \
    }
#define SHARE_DOM(OP, f, w)                                                                                           \
  case ref::OP:                                                                                                       \
    switch (form) {                                                                                                   \
    case 0: return W::ret(a * f(a) + f(b) * a);                                                                       \
    case 1: return W::ret(f(w(a * b)) * b + a);                                                                       \
    default: return W::ret(b - f(w(f(w(a)) + b)) * a);                                                                \
    }
#define SHARE_POS(x) ((N)2.5 + sin(x))
#define SHARE_ONE(x) ((N)3 + cos(x))
#define SHARE_HALF(x) ((N)0.5 * sin(x))
#define SHARE_NEG(x) (-(x))
template <class W, class A, class B> auto un_share(int op, int form, A& a, B& b) -> decltype(W::ret(a * b)) {
  using N = typename W::N;
  switch (op) {
    SHARE_FREE(SIN, sin) SHARE_FREE(COS, cos) SHARE_FREE(TAN, tan) SHARE_FREE(EXP, exp) SHARE_FREE(TANH, tanh) SHARE_FREE(SINH, sinh)
    SHARE_FREE(COSH, cosh) SHARE_FREE(ATAN, atan) SHARE_FREE(ASINH, asinh) SHARE_FREE(NEG, SHARE_NEG)
    SHARE_DOM(LOG, log, SHARE_POS) SHARE_DOM(SQRT, sqrt, SHARE_POS) SHARE_DOM(ACOSH, acosh, SHARE_ONE)
    SHARE_DOM(ASIN, asin, SHARE_HALF) SHARE_DOM(ACOS, acos, SHARE_HALF) SHARE_DOM(ATANH, atanh, SHARE_HALF)
  }
  return {};
}
#define SHARE_BIN(OP, o)                                                                                              \
  case ref::OP:                                                                                                       \
    switch (form) {                                                                                                   \
    case 0: return W::ret(a * (a o b) + b);                                                                           \
    case 1: return W::ret((b o a) * b - a);                                                                           \
    case 2: return W::ret(a + ((a o (N)1.5) * b) * ((N)1.5 o a));                                                     \
    default: return W::ret(sin(a) * (b o (a * b)) + (sin(a) o cos(b)) * b);                                           \
    }
template <class W, class A, class B> auto bin_share(int op, int form, A& a, B& b) -> decltype(W::ret(a * b)) {
  using N = typename W::N;
  switch (op) {
    SHARE_BIN(ADD, +) SHARE_BIN(SUB, -) SHARE_BIN(MUL, *) SHARE_BIN(DIV, /)
    case ref::POW:
      switch (form) {
      case 0: return W::ret(a * pow(a, b) + b);
      case 1: return W::ret(pow(SHARE_POS(a), b) * b - a);
      case 2: return W::ret(a + (pow(a, (N)2) * b) * pow((N)1.5, a));
      default: return W::ret(sin(a) * pow(SHARE_POS(b), a * b) + pow(SHARE_POS(a), cos(b)) * b);
      }
  }
  return {};
}
} // namespace sp
