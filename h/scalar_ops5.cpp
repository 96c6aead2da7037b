// further ways of accumulating: the accumulator deep inside every kind of node
#include "scalar_prog.hpp"
namespace sp {
template <class B> static void rec(int form, Expression& e, B& o) {
  switch (form) {
  case 19: e = o*((Type)0.5*e + o); break;
  case 20: e = ((Type)0.5*e + o)*o; break;
  case 21: e = o/((Type)3 + sin(e)); break;
  case 22: e = (e*o)/((Type)3 + o*o); break;
  case 23: e = ((Type)0.5*e - o) + (Type)2; break;
  case 24: e = (Type)2 + e*o; break;
  case 25: e = e*o - (Type)1.5; break;
  case 26: e = (Type)2 - e*o; break;
  case 27: e = (e*o)*(Type)0.5; break;
  case 28: e = (Type)0.5*(e + o); break;
  case 29: e = (e + o)/(Type)2; break;
  case 30: e = (Type)2/((Type)3 + sin(e)); break;
  case 31: e = pow((Type)0.5*e + o, (Type)2); break;
  case 32: e = pow((Type)2, sin(e)); break;
  case 33: e = pow((Type)2.5 + sin(e), sin(o)); break;
  case 34: e = pow((Type)2.5 + sin(o), cos(e)); break;
  case 35: e = pow((Type)2, e) * (Type)0.25; break;
  case 36: e = pow((Type)2.5 + sin(e), (Type)0.5); break;
  case 37: e = o - ((Type)0.25*e*e - o); break;
  }
}
void lib_rec_more1(int form, Expression& e, Variable* v, Parameter* p, Expression* o) {
  if (v) rec(form, e, *v);
  else if (p) rec(form, e, *p);
  else rec(form, e, *o);
}
} // namespace sp
