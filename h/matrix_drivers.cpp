// Derivative drivers of scalar expressions: gradients, Jacobians and Hessians by a matrix or a list of variables.
#include "matrix_prog.hpp"
using namespace mp;
namespace R1 = CoolDiff::TensorR1;
namespace R2 = CoolDiff::TensorR2;
namespace {
struct G {
  std::vector<int> nodes;
  G(sp::Prog& P, int node, int order) { nodes.push_back(node); for (int q = 0; q < order; ++q) nodes.push_back(P.g.diff(nodes.back(), ref::ALL)); }
  bool operator()(ref::Oracle& o) const { for (int n : nodes) if (!o.get(n).ok) return false; return true; }
};
// the variables the driver is asked for, as a matrix and as a list of handles
struct Ask {
  int r, c;
  std::vector<int> ids; // -1: a variable that does not occur
  Matrix<Variable>* m;
  std::vector<Variable> vec;
};
Ask ask(sp::Prog& P, int maxel, bool hess) {
  Ask a;
  if (P.ch.draw(16) == 15) { // many positions
    do { a.r = 1 + P.ch.draw(12); a.c = 1 + P.ch.draw(12); } while (a.r * a.c > (hess ? 8 : 90) && a.r * a.c > 1);
    P.in.label("wide");
  } else do { a.r = 1 + P.ch.draw(3); a.c = 1 + P.ch.draw(3); } while (a.r * a.c > maxel);
  a.m = new Matrix<Variable>(a.r, a.c);
  P.in.desc << "X[" << a.r << "x" << a.c << "]={";
  for (int k = 0; k < a.r * a.c; ++k) {
    int i = P.ch.draw(5) ? (int)P.ch.draw((uint32_t)P.v.size()) : -1;
    a.ids.push_back(i);
    if (i >= 0) (*a.m)[k] = P.hv(i);
    else { Variable z((Type)0.75); (*a.m)[k] = z; }
    a.vec.push_back((*a.m)[k]);
    if (i >= 0) P.in.desc << "x" << i << " "; else P.in.desc << "new ";
  }
  P.in.desc << "}; ";
  return a;
}
int dnode(sp::Prog& P, int nd, int id) { return id < 0 ? P.g.zero_ : P.g.diff(nd, id); }
void compare(Info& in, const std::string& what, const Matrix<Type>& m, int r, int c, const std::vector<int>& nodes, ref::Oracle& o, bool ok) {
  if ((int)m.getNumRows() != r || (int)m.getNumColumns() != c) {
    std::ostringstream os;
    os << what << ": result is " << m.getNumRows() << "x" << m.getNumColumns() << ", should be " << r << "x" << c;
    throw Fail{os.str()};
  }
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j) {
      ref::Val v = o.get(nodes[(size_t)i * c + j]);
      v.ok = v.ok && ok;
      sp::expect(in, what + " (" + std::to_string(i) + "," + std::to_string(j) + ")", m(i, j), v);
    }
}
void action(sp::Prog& P) {
  for (size_t i = 0; i < P.v.size(); ++i) if (P.ch.flip()) P.set_var((int)i);
  for (size_t i = 0; i < P.p.size(); ++i) if (P.ch.flip()) P.set_par((int)i);
}
void p_drv(Choices& ch, Info& in) {
  sp::Prog P(ch, in);
  P.build(5);
  int calls = 1 + ch.draw(3);
  struct Sym { Matrix<Expression>* m; int r, c, base, order; std::vector<int> nd; std::string nm; };
  std::vector<Sym> syms;
  for (int q = 0; q < calls; ++q) {
    if (q) action(P);
    int k = ch.draw(3) ? (int)P.es.size() - 1 : (int)ch.draw((uint32_t)P.es.size());
    Expression& e = *P.es[k].e;
    int nd = P.es[k].node;
    std::string en = "e" + std::to_string(k);
    int what = (int)ch.draw(12);
    bool hess = what == 6 || what == 7 || what == 10 || what == 11;
    Ask a = ask(P, hess ? 3 : 6, hess);
    int n = a.r * a.c;
    std::vector<int> d1, d2;
    for (int i : a.ids) d1.push_back(dnode(P, nd, i));
    if (hess) for (int i : a.ids) for (int j : a.ids) d2.push_back(j < 0 ? P.g.zero_ : dnode(P, dnode(P, nd, i), j));
    G gd(P, nd, hess ? 2 : 1);
    ref::Oracle o(P.g, P.point());
    bool ok = gd(o);
    static const char* nm[] = {"DevalF serial", "DevalF", "DevalR", "DevalR into result", "JacobianR matrix", "JacobianR list", "HessianR matrix", "HessianR list", "SymGradient matrix", "SymGradient list", "SymHessian matrix", "SymHessian list"};
    std::string w = std::string(nm[what]) + " of " + en;
    in.desc << w << "; ";
    in.label(std::string("drv:") + nm[what]);
    switch (what) {
    case 0: compare(in, w, R2::DevalF(e, *a.m), a.r, a.c, d1, o, ok); break;
    case 1: compare(in, w, R2::DevalF(e, *a.m, false), a.r, a.c, d1, o, ok); break;
    case 2: compare(in, w, R2::DevalR(e, *a.m), a.r, a.c, d1, o, ok); break;
    case 3: {
      Matrix<Type>* res = nullptr;
      if (ch.flip()) res = new Matrix<Type>(ch.flip() ? a.r : 1 + (int)ch.draw(3), a.c, (Type)7);
      R2::Details::DevalR(e, *a.m, res);
      compare(in, w, *res, a.r, a.c, d1, o, ok);
      break;
    }
    case 4: compare(in, w, R2::JacobianR(e, *a.m), n, 1, d1, o, ok); break;
    case 5: compare(in, w, R2::JacobianR(e, a.vec), n, 1, d1, o, ok); break;
    case 6: compare(in, w, R2::HessianR(e, *a.m), n, n, d2, o, ok); break;
    case 7: compare(in, w, R2::HessianR(e, a.vec), n, n, d2, o, ok); break;
    case 8: if (ch.flip()) syms.push_back({&R2::SymGradient(e, *a.m), n, 1, nd, 1, d1, w});
            else { in.label("drv:SymMatDiff"); syms.push_back({&R2::SymMatDiff(e, *a.m), a.r, a.c, nd, 1, d1, "SymMatDiff of " + en}); }
            break;
    case 9: syms.push_back({&R2::SymGradient(e, a.vec), n, 1, nd, 1, d1, w}); break;
    case 10: syms.push_back({&R2::SymHessian(e, *a.m), n, n, nd, 2, d2, w}); break;
    default: syms.push_back({&R2::SymHessian(e, a.vec), n, n, nd, 2, d2, w});
    }
    // the expression still means the same
    if (ch.draw(3) == 0) { auto v = o.get(nd); v.ok = v.ok && ok; sp::expect(in, "Eval " + en + " afterwards", R1::Eval(e), v); }
  }
  for (int round = 0; round < 2 && !syms.empty(); ++round) {
    if (round || ch.flip()) action(P);
    for (auto& s : syms) {
      G gd(P, s.base, s.order + 1);
      ref::Oracle o(P.g, P.point());
      bool ok = gd(o);
      if (!ok) { ++in.skipped; continue; }
      if ((int)s.m->getNumRows() != s.r || (int)s.m->getNumColumns() != s.c) throw Fail{s.nm + ": wrong shape"};
      if (ch.flip()) compare(in, "Eval of the matrix " + s.nm, R2::Eval(*s.m), s.r, s.c, s.nd, o, ok);
      else
        for (int i = 0; i < s.r * s.c; ++i) sp::expect(in, "Eval of " + s.nm + " [" + std::to_string(i) + "]", R1::Eval((*s.m)[i]), o.get(s.nd[i]));
    }
  }
  in.nontrivial = in.checks >= 3;
}
pbt::Reg r10({"C10", "at least three derivative entries compared", p_drv, 60000, 1000000, 100});
} // namespace
