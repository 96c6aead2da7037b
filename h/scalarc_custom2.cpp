// User-defined scalar operators, declared the way the library's own custom functions are.
#include "scalar_prog.hpp"

BINARY_SCALAR_OPERATOR(MixB, [](const Type u, const Type v) { return u * u * v + v; },
                       [](const Type u, const Type v) { return (Type)2 * u * v; },
                       [](const Type u, const Type v) { return u * u + (Type)1; })
BINARY_SCALAR_OPERATOR(QuotB, [](const Type u, const Type v) { return u / (v * v + (Type)3); },
                       [](const Type u, const Type v) { return (Type)1 / (v * v + (Type)3); },
                       [](const Type u, const Type v) { return -(Type)2 * u * v / ((v * v + (Type)3) * (v * v + (Type)3)); })
BINARY_SCALAR_OPERATOR(SubB, [](const Type u, const Type v) { return u - v; },
                       [](const Type u, const Type v) { return (Type)1; },
                       [](const Type u, const Type v) { return -(Type)1; })


namespace sp {
using F = Expression::ExpressionFactory;
#define FORMS2(OP)                                                            \
  switch (form) {                                                             \
  case 1: return F::CreateExpression(w * OP(a, b) + w);                       \
  case 2: return F::CreateExpression(cos(OP(a, b)) * OP(a, b));               \
  default: return F::CreateExpression(OP(w + w * w, OP(a, b)));               \
  }
static Expression& c2(int op, int form, Expression& a, Expression& b, Variable& w) {
  switch (op) {
  case 0: FORMS2(ProductS)
  case 1: FORMS2(MixB)
  case 2: FORMS2(QuotB)
  default: FORMS2(SubB)
  }
}
template <class A, class B> static Expression& bare(int op, A& a, B& b) {
  switch (op) {
  case 0: return F::CreateExpression(ProductS(a, b));
  case 1: return F::CreateExpression(MixB(a, b));
  case 2: return F::CreateExpression(QuotB(a, b));
  default: return F::CreateExpression(SubB(a, b));
  }
}
template <class A> static Expression& bare_r(int op, A& a, const Opd& B, Variable* v, Parameter* p, Expression* e) {
  if (v) return bare(op, a, *v);
  if (p) return bare(op, a, *p);
  if (e) return bare(op, a, *e);
  Type t = B.num;
  return bare(op, a, t);
}
static Expression& as_expr(const Opd& o, Variable* v, Parameter* p, Expression* e) {
  if (v) return F::CreateExpression(*v);
  if (p) return F::CreateExpression(*p);
  if (e) return *e;
  return F::CreateExpression(o.num);
}
// the bare operator takes every kind of operand, the compositions are made on expressions
static Expression& lib_custom2(int op, const Opd& A, const Opd& B, Variable* v1, Variable* v2, Parameter* p1, Parameter* p2, Expression* e1, Expression* e2, int form, Variable& w) {
  if (form != 0) return c2(op, form, as_expr(A, v1, p1, e1), as_expr(B, v2, p2, e2), w);
  if (v1) return bare_r(op, *v1, B, v2, p2, e2);
  if (p1) return bare_r(op, *p1, B, v2, p2, e2);
  if (e1) return bare_r(op, *e1, B, v2, p2, e2);
  Type t = A.num;
  if (v2) return bare(op, t, *v2);
  if (p2) return bare(op, t, *p2);
  return bare(op, t, *e2);
}
static ref::R m2(int op, ref::R u, ref::R v) {
  using namespace ref;
  switch (op) {
  case 0: return u * v;
  case 1: return u * u * v + v;
  case 2: return u / (v * v + LT(3));
  default: return u - v;
  }
}
static int ref_custom2(ref::Graph& g, int op, int form, int a_, int b_, int w_) {
  using namespace ref;
  R a{&g, a_}, b{&g, b_}, w{&g, w_};
  switch (form) {
  case 0: return m2(op, a, b).i;
  case 1: return (w * m2(op, a, b) + w).i;
  case 2: return (cos(m2(op, a, b)) * m2(op, a, b)).i;
  default: return m2(op, w + w * w, m2(op, a, b)).i;
  }
}
static const char* n2[] = {"ProductS", "mix", "quot", "sub"};
static std::string custom2_text(int op, int form) {
  std::string o = n2[op];
  return form == 0 ? o + "(u,v)" : form == 1 ? "w*" + o + "(u,v)+w" : form == 2 ? "cos(" + o + "(u,v))*" + o + "(u,v)" : o + "(w+w*w," + o + "(u,v))";
}
static bool reg = (X().lib_custom2 = lib_custom2, X().ref_custom2 = ref_custom2, X().custom2_text = custom2_text, true);
} // namespace sp
