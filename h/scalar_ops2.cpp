#include "scalar_prog.hpp"
namespace sp {
template <class A, class B> static Expression& bin(int op, A& a, B& b) {
  using F = Expression::ExpressionFactory;
  switch (op) {
  case ref::ADD: return F::CreateExpression(a + b);
  case ref::SUB: return F::CreateExpression(a - b);
  case ref::MUL: return F::CreateExpression(a * b);
  case ref::DIV: return F::CreateExpression(a / b);
  default: return F::CreateExpression(pow(a, b));
  }
}
template <class A> static Expression& bin2(int op, A& a, const Opd& B, Variable* v, Parameter* p, Expression* e) {
  if (v) return bin(op, a, *v);
  if (p) return bin(op, a, *p);
  if (e) return bin(op, a, *e);
  Type t = B.num;
  return bin(op, a, t);
}
Expression& lib_binary(int op, const Opd& A, const Opd& B, Variable* v1, Variable* v2, Parameter* p1, Parameter* p2, Expression* e1, Expression* e2) {
  if (v1) return bin2(op, *v1, B, v2, p2, e2);
  if (p1) return bin2(op, *p1, B, v2, p2, e2);
  if (e1) return bin2(op, *e1, B, v2, p2, e2);
  Type t = A.num;
  if (v2) return bin(op, t, *v2);
  if (p2) return bin(op, t, *p2);
  return bin(op, t, *e2);
}
} // namespace sp
