// User-defined scalar operators, declared the way the library's own custom functions are.
#include "scalar_prog.hpp"

static Type cube_f(const Type& u) { return u * u * u; }
static Type cube_d(const Type& u) { return (Type)3 * u * u; }
static Type logi_f(const Type& u) { return (Type)1 / ((Type)1 + std::exp(-u)); }
static Type logi_d(const Type& u) { const Type s = logi_f(u); return s * ((Type)1 - s); }
UNARY_SCALAR_OPERATOR(CubeU, cube_f, cube_d)
UNARY_SCALAR_OPERATOR(LogiU, logi_f, logi_d)
UNARY_SCALAR_OPERATOR(SigmU, Sigmoid<Type>, DSigmoid<Type>)
UNARY_SCALAR_OPERATOR(TanhU, Tanh<Type>, DTanh<Type>)
UNARY_SCALAR_OPERATOR(SqrtU, Sqrt<Type>, DSqrt<Type>)
UNARY_SCALAR_OPERATOR(LogU, Log<Type>, DLog<Type>)
#ifndef USE_COMPLEX_MATH
UNARY_SCALAR_OPERATOR(LReluU, LeakyReLU<Type>, DLeakyReLU<Type>)
#endif

namespace sp {
using F = Expression::ExpressionFactory;
// the bare operator takes any kind of operand, the compositions variables and expressions
#define FORMS1(OP)                                                            \
  if constexpr (std::is_same_v<A, Parameter>) {                               \
    if (form == 0) return F::CreateExpression(OP(a));                         \
    return c1(op, form, F::CreateExpression(a), w);                           \
  } else switch (form) {                                                      \
  case 0: return F::CreateExpression(OP(a));                                  \
  case 1: return F::CreateExpression(w * OP(a) + OP(a));                      \
  case 2: return F::CreateExpression(sin(OP(a + w)) - w);                     \
  default: return F::CreateExpression(OP(w * OP(a)));                         \
  }
template <class A> static Expression& c1(int op, int form, A& a, Variable& w) {
  switch (op) {
  case 0: FORMS1(SinS)
  case 1: FORMS1(CosS)
  case 2: FORMS1(CubeU)
  case 3: FORMS1(LogiU)
  case 4: FORMS1(SigmU)
  case 5: FORMS1(TanhU)
  case 6: FORMS1(SqrtU)
  case 7: FORMS1(LogU)
#ifndef USE_COMPLEX_MATH
  default: FORMS1(LReluU)
#else
  default: FORMS1(SinS)
#endif
  }
}
static Expression& lib_custom1(int op, int form, Variable* v, Parameter* p, Expression* e, Variable& w) {
  if (v) return c1(op, form, *v, w);
  if (p) return c1(op, form, *p, w);
  return c1(op, form, *e, w);
}
static ref::R m1(int op, ref::R u) {
  using namespace ref;
  switch (op) {
  case 0: return sin(u);
  case 1: return cos(u);
  case 2: return u * u * u;
  case 3: case 4: return LT(0.5) * (LT(1) + tanh(LT(0.5) * u)); // the logistic function, with the conditioning of its textbook derivative s(1-s)
  case 5: return tanh(u);
  case 6: return sqrt(u);
  case 7: return log(u);
  default: return {u.g, u.g->un(LRELU, u.i)};
  }
}
static int ref_custom1(ref::Graph& g, int op, int form, int a_, int w_) {
  using namespace ref;
  R a{&g, a_}, w{&g, w_};
  switch (form) {
  case 0: return m1(op, a).i;
  case 1: return (w * m1(op, a) + m1(op, a)).i;
  case 2: return (sin(m1(op, a + w)) - w).i;
  default: return m1(op, w * m1(op, a)).i;
  }
}
static const char* n1[] = {"SinS", "CosS", "cube", "logistic", "Sigmoid", "Tanh", "Sqrt", "Log", "LeakyReLU"};
static std::string custom1_text(int op, int form) {
  std::string o = n1[op];
  return form == 0 ? o + "(u)" : form == 1 ? "w*" + o + "(u)+" + o + "(u)" : form == 2 ? "sin(" + o + "(u+w))-w" : o + "(w*" + o + "(u))";
}
static bool reg = (X().lib_custom1 = lib_custom1, X().ref_custom1 = ref_custom1, X().custom1_text = custom1_text, true);
} // namespace sp
