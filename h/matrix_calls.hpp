// Calls into the library and their comparison with the reference, shared by the matrix properties.
#pragma once
#include "matrix_prog.hpp"
namespace mp {
namespace R1 = CoolDiff::TensorR1;
namespace R2 = CoolDiff::TensorR2;

inline int pick_any(MProg& P) { size_t n = P.es.size(); return P.ch.draw(3) ? (int)n - 1 : (int)P.ch.draw((uint32_t)n); }
inline Matrix<Type>& lib_eval(const Mat& m) {
  switch (m.k) {
  case E: return R2::Eval(m.e());
  case V: return R2::Eval(m.v());
  case T: return R2::Eval(m.t());
  default: return R2::Eval(m.q());
  }
}
inline Matrix<Type>& lib_fwd(const Mat& m, Matrix<Variable>& X) {
  switch (m.k) {
  case E: return R2::DevalF(m.e(), X);
  case V: return R2::DevalF(m.v(), X);
  case T: return R2::DevalF(m.t(), X);
  default: return R2::DevalF(m.q(), X);
  }
}
inline bool check_eval(MProg& P, int k, const char* extra = "") {
  MGuard gd(P, P.es[k].r, P.es[k].zeros, 0);
  ref::Oracle o(P.g, P.S.point());
  bool ok = gd(o);
  if (!ok && P.ch.flip()) { ++P.in.skipped; return false; }
  Matrix<Type>& got = lib_eval(P.es[k].m);
  return expectM(P.in, "Eval " + P.nm(k) + extra, got, P.es[k].r.r, P.es[k].r.c, P.es[k].r.n, o, ok);
}
inline bool check_fwd(MProg& P, int k, int x, const char* extra = "") {
  std::set<int> only;
  if (P.wide) {
    const size_t nf = P.es[k].r.n.size(), nx = P.es[x].vars.size();
    if (nf * nx > 6000) return false;
    if (nf * nx > 200 || P.g.n.size() > 5000) for (int q = 0; q < 3; ++q) only.insert(q ? (int)P.ch.draw((uint32_t)nx) : (int)nx - 1);
  }
  MGuard gd(P, P.es[k].r, P.es[k].zeros, 1);
  auto d = jac(P.g, P.es[k].r, P.es[x].r.r, P.es[x].r.c, P.es[x].vars, only);
  ref::Oracle o(P.g, P.S.point());
  bool ok = gd(o);
  Matrix<Type>& got = lib_fwd(P.es[k].m, P.es[x].m.v());
  return expectM(P.in, "DevalF " + P.nm(k) + " wrt " + P.nm(x) + extra, got, P.es[k].r.r * P.es[x].r.r, P.es[k].r.c * P.es[x].r.c, d, o, ok);
}
inline int pick_X(MProg& P) {
  std::vector<int> v;
  for (size_t i = 0; i < P.es.size(); ++i) if (P.es[i].m.k == V) v.push_back((int)i);
  size_t a = P.ch.pick({8, 2, 1});
  if (a == 0 || v.empty()) return v.empty() ? P.new_Vd() : v[P.ch.draw((uint32_t)v.size())];
  if (a == 1) { int r = P.dim(), c = P.dim(); while (r * c > 40) { r = (r + 1) / 2; c = (c + 1) / 2; } return P.new_V(r, c, false); } // a selection of existing variables
  return P.new_Vd();                    // unrelated
}
inline void random_backend(MProg& P) {
  bool nv = !P.has_inv && P.ch.flip();
  P.inv_ok = !nv;
  P.backend(nv);
  P.in.desc << (nv ? "naive; " : "eigen; ");
  P.in.label(nv ? "backend:naive" : "backend:eigen");
}
inline bool check_rev(MProg& P, int k, const char* extra = "") {
  Ent& f = P.es[k];
  bool any = false;
  MGuard gd(P, f.r, f.zeros, 1);
  std::set<int> inmat;
  for (auto& e : P.es) inmat.insert(e.vars.begin(), e.vars.end());
  // variables that also occur in scalar expressions are no direct occurrences of a matrix
  std::set<int> viaexpr;
  {
    RM t(&P.g, 1, (int)P.S.es.size());
    for (size_t i = 0; i < P.S.es.size(); ++i) t.n[i] = P.S.es[i].node;
    for (int k : P.reach({&t})) if (P.g.n[k].op == ref::VAR) viaexpr.insert(P.g.n[k].a);
  }
  std::vector<std::vector<int>> d;
  for (auto& e : P.es) {
    d.emplace_back();
    const size_t nx = e.vars.size();
    std::set<int> only;
    if (P.wide && nx > 12) for (int q = 0; q < 4; ++q) only.insert(q ? (int)P.ch.draw((uint32_t)nx) : (int)nx - 1);
    for (size_t q = 0; q < nx; ++q) d.back().push_back(only.empty() || only.count((int)q) ? P.g.diff(f.r.n[0], e.vars[q]) : -1);
  }
  std::vector<int> ds;
  for (size_t i = 0; i < P.S.v.size(); ++i) ds.push_back(P.g.diff(f.r.n[0], (int)i));
  ref::Oracle o(P.g, P.S.point());
  bool ok = gd(o);
  if (!ok) { ++P.in.skipped; return false; }
  R2::PreComp(f.m.e());
  for (size_t i = 0; i < P.es.size(); ++i) {
    if (P.es[i].m.k != V || !P.es[i].rev) continue;
    bool direct = true;
    for (int v : P.es[i].vars) direct &= !viaexpr.count(v);
    if (!direct) continue;
    any |= expectM(P.in, "DevalR " + P.nm(k) + " wrt " + P.nm((int)i) + extra, R2::DevalR(f.m.e(), P.es[i].m.v()), P.es[i].r.r, P.es[i].r.c, d[i], o, ok);
  }
  for (size_t i = 0; i < P.S.v.size(); ++i)
    if (!inmat.count((int)i)) any |= expectM(P.in, "DevalR " + P.nm(k) + " wrt x" + std::to_string(i) + extra, R2::DevalR(f.m.e(), P.S.hv((int)i)), 1, 1, {ds[i]}, o, ok);
  return any;
}
// build formulas usable in reverse mode
inline int build_rev(MProg& P, int most) {
  P.scalars();
  P.rev_only = true;
  P.new_Vd();
  int n = 1 + P.ch.draw(most), made = 0;
  for (int i = 0; i < 4 * n && made < n; ++i) made += P.st_shape(true);
  if (!made) throw Discard{"no formula fits"};
  for (int n2 = P.ch.draw(4); n2 > 0; --n2) P.st_rev();
  return made;
}
// the last scalar formula, sometimes another one
inline int pick_rev(MProg& P) {
  int k = -1;
  for (int i = (int)P.es.size() - 1; i >= 0; --i) if (P.es[i].m.k == E && (k < 0 || P.ch.draw(3) == 0)) k = i;
  return k;
}
// operands and the library's shared constants have not been touched by any call
inline void check_leaves(MProg& P) {
  for (auto& e : P.es) {
    auto bad = [&](size_t k, Type got, Type want) {
      std::ostringstream os;
      os << "operand " << "EVTP"[e.m.k] << " element " << k << " was changed by a call: is " << ref::show(ref::up(got)) << ", was set to " << ref::show(ref::up(want));
      throw Fail{os.str()};
    };
    for (size_t k = 0; k < e.r.n.size(); ++k) {
      if (e.m.k == T && !(e.m.t()[k] == P.S.pv[e.par0 + k])) bad(k, e.m.t()[k], P.S.pv[e.par0 + k]);
      if (e.m.k == mp::Kind::P && !(R1::Eval(e.m.q()[k]) == P.S.pv[e.par0 + k])) bad(k, R1::Eval(e.m.q()[k]), P.S.pv[e.par0 + k]);
      if (e.m.k == V && !(R1::Eval(e.m.v()[k]) == P.S.vv[e.vars[k]])) bad(k, R1::Eval(e.m.v()[k]), P.S.vv[e.vars[k]]);
    }
  }
  ++P.in.checks;
}
inline void check_constants() {
  namespace MB = R2::MatrixBasics;
  auto all = [](const Matrix<Type>& m, size_t r, size_t c, int kind) {
    bool ok = m.getNumRows() == r && m.getNumColumns() == c;
    for (size_t i = 0; ok && i < r; ++i) for (size_t j = 0; ok && j < c; ++j) ok = m(i, j) == (Type)(Real)(kind == 0 ? i == j : kind == 1);
    if (!ok) throw Fail{std::string("the shared constant ") + (kind == 0 ? "Eye" : kind == 1 ? "Ones" : "Zeros") + " of " + std::to_string(r) + "x" + std::to_string(c) + " does not hold its value"};
  };
  for (size_t r = 1; r <= 9; ++r) {
    all(MB::EyeRef("CPUMemoryStrategy", r), r, r, 0);
    for (size_t c = 1; c <= 9; ++c) { all(MB::OnesRef("CPUMemoryStrategy", r, c), r, c, 1); all(MB::ZerosRef("CPUMemoryStrategy", r, c), r, c, 2); }
  }
}
} // namespace mp
