#include "scalar_prog.hpp"
namespace sp {
template <class A> static Expression& un(int op, A& a) {
  using F = Expression::ExpressionFactory;
  switch (op) {
  case ref::NEG: return F::CreateExpression(-a);
  case ref::SIN: return F::CreateExpression(sin(a));
  case ref::COS: return F::CreateExpression(cos(a));
  case ref::TAN: return F::CreateExpression(tan(a));
  case ref::SINH: return F::CreateExpression(sinh(a));
  case ref::COSH: return F::CreateExpression(cosh(a));
  case ref::TANH: return F::CreateExpression(tanh(a));
  case ref::ASIN: return F::CreateExpression(asin(a));
  case ref::ACOS: return F::CreateExpression(acos(a));
  case ref::ATAN: return F::CreateExpression(atan(a));
  case ref::ASINH: return F::CreateExpression(asinh(a));
  case ref::ACOSH: return F::CreateExpression(acosh(a));
  case ref::ATANH: return F::CreateExpression(atanh(a));
  case ref::SQRT: return F::CreateExpression(sqrt(a));
  case ref::EXP: return F::CreateExpression(exp(a));
  default: return F::CreateExpression(log(a));
  }
}
Expression& lib_unary(int op, Variable* v, Parameter* p, Expression* e) {
  if (v) return un(op, *v);
  if (p) return un(op, *p);
  return un(op, *e);
}
} // namespace sp
