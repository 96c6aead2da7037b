// further ways of accumulating: the accumulator deep inside every kind of node
#include "scalar_prog.hpp"
namespace sp {
template <class B> static void rec(int form, Expression& e, B& o) {
  switch (form) {
  case 0: e = sin((Type)0.5*e) + o; break;
  case 1: e = cos(e + o); break;
  case 2: e = tan((Type)0.5*sin(e)) + o; break;
  case 3: e = asin((Type)0.5*sin(e)) - o; break;
  case 4: e = acos((Type)0.5*cos(e)) * o; break;
  case 5: e = atan((Type)0.5*e - o); break;
  case 6: e = sinh((Type)0.5*sin(e)); break;
  case 7: e = cosh((Type)0.5*sin(e)) - o; break;
  case 8: e = tanh(e*o); break;
  case 9: e = asinh(e - o); break;
  case 10: e = acosh((Type)3 + cos(e)); break;
  case 11: e = atanh((Type)0.5*sin(e)) + o; break;
  case 12: e = exp((Type)0.5*sin(e)) - o; break;
  case 13: e = log((Type)2.5 + sin(e)); break;
  case 14: e = sqrt((Type)2.5 + cos(e)) * o; break;
  case 15: e = -(e*o); break;
  case 16: e = o + sin(e)*e; break;
  case 17: e = o - (Type)0.5*e; break;
  case 18: e = sin(e) - o*o; break;
  }
}
void lib_rec_more0(int form, Expression& e, Variable* v, Parameter* p, Expression* o) {
  if (v) rec(form, e, *v);
  else if (p) rec(form, e, *p);
  else rec(form, e, *o);
}
const char* rec_text_more(int f) {
  static const char* t[] = {"sin(0.5*acc) + o", "cos(acc + o)", "tan(0.5*sin(acc)) + o", "asin(0.5*sin(acc)) - o", "acos(0.5*cos(acc)) * o", "atan(0.5*acc - o)", "sinh(0.5*sin(acc))", "cosh(0.5*sin(acc)) - o", "tanh(acc*o)", "asinh(acc - o)", "acosh(3 + cos(acc))", "atanh(0.5*sin(acc)) + o", "exp(0.5*sin(acc)) - o", "log(2.5 + sin(acc))", "sqrt(2.5 + cos(acc)) * o", "-(acc*o)", "o + sin(acc)*acc", "o - 0.5*acc", "sin(acc) - o*o", "o*(0.5*acc + o)", "(0.5*acc + o)*o", "o/(3 + sin(acc))", "(acc*o)/(3 + o*o)", "(0.5*acc - o) + 2", "2 + acc*o", "acc*o - 1.5", "2 - acc*o", "(acc*o)*0.5", "0.5*(acc + o)", "(acc + o)/2", "2/(3 + sin(acc))", "pow(0.5*acc + o, 2)", "pow(2, sin(acc))", "pow(2.5 + sin(acc), sin(o))", "pow(2.5 + sin(o), cos(acc))", "pow(2, acc) * 0.25", "pow(2.5 + sin(acc), 0.5)", "o - (0.25*acc*acc - o)"};
  return t[f];
}
int ref_rec_more(ref::Graph& g, int form, int e_, int o_) {
  using namespace ref;
  R e{&g, e_}, o{&g, o_};
  switch (form) {
  case 0: return (sin(LT(0.5)*e) + o).i;
  case 1: return (cos(e + o)).i;
  case 2: return (tan(LT(0.5)*sin(e)) + o).i;
  case 3: return (asin(LT(0.5)*sin(e)) - o).i;
  case 4: return (acos(LT(0.5)*cos(e)) * o).i;
  case 5: return (atan(LT(0.5)*e - o)).i;
  case 6: return (sinh(LT(0.5)*sin(e))).i;
  case 7: return (cosh(LT(0.5)*sin(e)) - o).i;
  case 8: return (tanh(e*o)).i;
  case 9: return (asinh(e - o)).i;
  case 10: return (acosh(LT(3) + cos(e))).i;
  case 11: return (atanh(LT(0.5)*sin(e)) + o).i;
  case 12: return (exp(LT(0.5)*sin(e)) - o).i;
  case 13: return (log(LT(2.5) + sin(e))).i;
  case 14: return (sqrt(LT(2.5) + cos(e)) * o).i;
  case 15: return (-(e*o)).i;
  case 16: return (o + sin(e)*e).i;
  case 17: return (o - LT(0.5)*e).i;
  case 18: return (sin(e) - o*o).i;
  case 19: return (o*(LT(0.5)*e + o)).i;
  case 20: return ((LT(0.5)*e + o)*o).i;
  case 21: return (o/(LT(3) + sin(e))).i;
  case 22: return ((e*o)/(LT(3) + o*o)).i;
  case 23: return ((LT(0.5)*e - o) + LT(2)).i;
  case 24: return (LT(2) + e*o).i;
  case 25: return (e*o - LT(1.5)).i;
  case 26: return (LT(2) - e*o).i;
  case 27: return ((e*o)*LT(0.5)).i;
  case 28: return (LT(0.5)*(e + o)).i;
  case 29: return ((e + o)/LT(2)).i;
  case 30: return (LT(2)/(LT(3) + sin(e))).i;
  case 31: return (pow(LT(0.5)*e + o, LT(2))).i;
  case 32: return (pow(LT(2), sin(e))).i;
  case 33: return (pow(LT(2.5) + sin(e), sin(o))).i;
  case 34: return (pow(LT(2.5) + sin(o), cos(e))).i;
  case 35: return (pow(LT(2), e) * LT(0.25)).i;
  case 36: return (pow(LT(2.5) + sin(e), LT(0.5))).i;
  case 37: return (o - (LT(0.25)*e*e - o)).i;
  }
  return e_;
}
} // namespace sp
