#include "scalar_prog.hpp"
namespace sp {
template <class B> static void rec(int form, Expression& e, B& o) {
  switch (form) {
  case 0: e = e + o; break;
  case 1: e = e * o; break;
  case 2: e = sin(e) + o; break;
  case 3: e = o - e; break;
  case 4: e = e * e + o; break;
  case 5: e = cos(e * o); break;
  case 6: e = (Type)0.5 * e - o * e; break;
  case 7: e = o / ((Type)3 + tanh(e)); break;
  case 8: e = -e; break;
  case 9: e = pow(e, (Type)2) - o; break;
  case 10: e = exp(-e * e) + e * o; break;
  case 11: e = sqrt(e * e + (Type)1) - o; break;
  case 12: e = log(e * e + (Type)2); break;
  case 13: e = (e + o) / (e * e + (Type)3); break;
  case 14: e = atan(e) * cos(e + o); break;
  default: e = sinh((Type)0.25 * e) - asinh(e) / ((Type)2 + sin(o * e)); break;
  }
}
void lib_rec(int form, Expression& e, Variable* v, Parameter* p, Expression* o, Type num) {
  if (v) rec(form, e, *v);
  else if (p) rec(form, e, *p);
  else if (o) rec(form, e, *o);
  else rec(form, e, num);
}
const char* rec_text(int f) {
  static const char* t[] = {"acc+o", "acc*o", "sin(acc)+o", "o-acc", "acc*acc+o", "cos(acc*o)", "0.5*acc-o*acc", "o/(3+tanh(acc))", "-acc", "pow(acc,2)-o", "exp(-acc*acc)+acc*o", "sqrt(acc*acc+1)-o", "log(acc*acc+2)", "(acc+o)/(acc*acc+3)", "atan(acc)*cos(acc+o)", "sinh(0.25*acc)-asinh(acc)/(2+sin(o*acc))"};
  return t[f];
}
int ref_rec(ref::Graph& g, int form, int e_, int o_, LT) {
  using namespace ref;
  R e{&g, e_}, o{&g, o_};
  switch (form) {
  case 0: return (e + o).i;
  case 1: return (e * o).i;
  case 2: return (sin(e) + o).i;
  case 3: return (o - e).i;
  case 4: return (e * e + o).i;
  case 5: return (cos(e * o)).i;
  case 6: return (LT(0.5) * e - o * e).i;
  case 7: return (o / (LT(3) + tanh(e))).i;
  case 8: return (-e).i;
  case 9: return (pow(e, LT(2)) - o).i;
  case 10: return (exp(-e * e) + e * o).i;
  case 11: return (sqrt(e * e + LT(1)) - o).i;
  case 12: return (log(e * e + LT(2))).i;
  case 13: return ((e + o) / (e * e + LT(3))).i;
  case 14: return (atan(e) * cos(e + o)).i;
  default: return (sinh(LT(0.25) * e) - asinh(e) / (LT(2) + sin(o * e))).i;
  }
}
} // namespace sp
