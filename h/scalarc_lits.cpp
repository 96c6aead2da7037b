// Built-in binary operators with literals of every arithmetic type on either side.
#include "scalar_prog.hpp"
namespace sp {
using F = Expression::ExpressionFactory;
static const char* lit_name(int k) {
  static const char* n[] = {"int", "float", "double", "unsigned", "long", "size_t", "short", "Type"};
  return n[k];
}
static long double base(int kind, int n) {
  if (kind == 1 || kind == 2 || kind == 7) return n * 0.5L + 0.25L; // exact in float
  return n;
}
static LT lit_value(int kind, int n) {
  long double b = base(kind, n);
  if ((kind == 0 || kind == 4 || kind == 6) && n >= 5) b = -b;
#if defined(USE_COMPLEX_MATH)
  if (kind == 7) return LT(b, -0.5L);
#endif
  return LT(b);
}
template <class N, class A> static Expression& one(int op, bool left, N n, A& a) {
  if (left) switch (op) {
    case ref::ADD: return F::CreateExpression(n + a);
    case ref::SUB: return F::CreateExpression(n - a);
    case ref::MUL: return F::CreateExpression(n * a);
    case ref::DIV: return F::CreateExpression(n / a);
    default: return F::CreateExpression(pow(n, a));
    }
  switch (op) {
  case ref::ADD: return F::CreateExpression(a + n);
  case ref::SUB: return F::CreateExpression(a - n);
  case ref::MUL: return F::CreateExpression(a * n);
  case ref::DIV: return F::CreateExpression(a / n);
  default: return F::CreateExpression(pow(a, n));
  }
}
template <class A> static Expression& lit(int op, int kind, bool left, int n, A& a) {
  LT w = lit_value(kind, n);
  long double r = std::real(w);
  switch (kind) {
  case 0: return one(op, left, (int)r, a);
  case 1: return one(op, left, (float)r, a);
  case 2: return one(op, left, (double)r, a);
  case 3: return one(op, left, (unsigned)r, a);
  case 4: return one(op, left, (long)r, a);
  case 5: return one(op, left, (size_t)r, a);
  case 6: return one(op, left, (short)r, a);
  default: return one(op, left, down(w), a);
  }
}
static Expression& lib_literal(int op, int kind, bool left, int n, Variable* v, Parameter* p, Expression* e) {
  if (v) return lit(op, kind, left, n, *v);
  if (p) return lit(op, kind, left, n, *p);
  return lit(op, kind, left, n, *e);
}
static bool reg = (X().lit_name = lit_name, X().lib_literal = lib_literal, X().lit_value = lit_value, true);
} // namespace sp
