#include "scalar_prog.hpp"
#include "sanitizer.hpp"
using namespace sp;
namespace R1 = CoolDiff::TensorR1;

static void action_values(Prog& P, int pct = 60) {
  for (size_t i = 0; i < P.v.size(); ++i) if ((int)P.ch.draw(100) < pct) P.set_var((int)i);
  for (size_t i = 0; i < P.p.size(); ++i) if ((int)P.ch.draw(100) < pct) P.set_par((int)i);
}
// the point is inside the open domain of the formula and of its derivatives up to `order`
struct Guard {
  std::vector<int> nodes;
  Guard(Prog& P, int node, int order) { nodes.push_back(node); for (int q = 0; q < order; ++q) nodes.push_back(P.g.diff(nodes.back(), ref::ALL)); }
  bool operator()(ref::Oracle& o) const {
    for (int n : nodes) if (!o.get(n).ok) return false;
    return nodes.size() == 1 || !o.ev[0].edge[nodes[0]]; // no derivative next to the end of the domain
  }
};
static ref::Val when(bool g, ref::Val v) { v.ok = v.ok && g; return v; }

// the formula of a static shape passed to the API directly, as an unnamed expression
static void direct(Prog& P, int mode) {
  if (P.uses.empty()) return;
  auto& u = P.uses[P.ch.draw((uint32_t)P.uses.size())];
  int w = P.ch.draw((uint32_t)P.v.size());
  Guard gd(P, u.node, mode ? 1 : 0);
  int nd = mode ? P.g.diff(u.node, w) : u.node;
  ref::Oracle o(P.g, P.point());
  Type got = u.s->direct(P.hv(u.a), P.hv(u.b), P.hv(u.c), P.hp(u.q), *P.es[u.e].e, *P.es[u.f].e, mode, P.hv(w));
  static const char* m[] = {"Eval", "DevalF", "Eval SymDiff"};
  P.in.label(std::string("direct:") + m[mode]);
  expect(P.in, std::string(m[mode]) + " of unnamed formula " + u.s->text + " wrt x" + std::to_string(w), got, when(gd(o), o.get(nd)));
}
// the API applied to a bare variable, parameter or number
static void leaves(Prog& P, int mode) {
  ref::Oracle o(P.g, P.point());
  int i = P.ch.draw((uint32_t)P.v.size()), j = P.ch.draw((uint32_t)P.v.size());
  Variable &x = P.hv(i), &y = P.hv(j);
  auto one = o.get(P.g.one_), zero = o.get(P.g.zero_);
  Type num = P.rnd();
  auto nv = o.get(P.g.cst(ref::up(num)));
  Parameter* p = P.p.empty() ? nullptr : &P.hp((int)P.ch.draw((uint32_t)P.p.size()));
  switch (mode) {
  case 0:
    expect(P.in, "Eval of a variable", R1::Eval(x), o.get(P.g.var(i)));
    expect(P.in, "Eval of a number", R1::Eval(num), nv);
    for (size_t k = 0; k < P.p.size(); ++k) expect(P.in, "Eval of a parameter", R1::Eval(P.hp((int)k)), o.get(P.g.par((int)k)));
    break;
  case 1:
    expect(P.in, "DevalF of a variable", R1::DevalF(x, y), i == j ? one : zero);
    expect(P.in, "DevalF of a number", R1::DevalF(num, y), zero);
    if (p) expect(P.in, "DevalF of a parameter", R1::DevalF(*p, y), zero);
    break;
  case 2:
    expect(P.in, "DevalR of a variable", R1::DevalR(x, y), i == j ? one : zero);
    expect(P.in, "DevalR of a number", R1::DevalR(num, y), zero);
    if (p) expect(P.in, "DevalR of a parameter", R1::DevalR(*p, y), zero);
    break;
  default:
    expect(P.in, "SymDiff of a variable", R1::Eval(R1::SymDiff(x, y)), i == j ? one : zero);
    if (p) expect(P.in, "SymDiff of a parameter", R1::Eval(R1::SymDiff(*p, y)), zero);
  }
}
static std::string en(int k) { return "e" + std::to_string(k); }
static int pick_e(Prog& P) {
  size_t n = P.es.size();
  return P.ch.draw(3) ? (int)n - 1 : (int)P.ch.draw((uint32_t)n);
}

// value of every expression
static void p_eval(Choices& ch, Info& in) {
  Prog P(ch, in);
  P.build(7);
  for (int round = 0; round < 3; ++round) {
    if (round) { action_values(P); if (ch.draw(3) == 0) P.mutate(); }
    ref::Oracle o(P.g, P.point());
    int n = (int)P.es.size();
    for (int j = 0; j < n; ++j) {
      int k = (j + (int)ch.draw(n)) % n;
      expect(in, "Eval " + en(k), R1::Eval(*P.es[k].e), o.get(P.es[k].node));
    }
    direct(P, 0);
    leaves(P, 0);
  }
  in.nontrivial = in.checks >= 2 && P.es.size() >= 2;
}
static void p_fwd(Choices& ch, Info& in) {
  Prog P(ch, in);
  P.build(7);
  Variable other((Type)1.25);
  for (int round = 0; round < 2; ++round) {
    int k = pick_e(P);
    if (round) {
      action_values(P);
      if (ch.draw(3) == 0) if (int m = P.mutate(); m >= 0) k = m;
    }
    std::vector<int> d;
    for (size_t i = 0; i < P.v.size(); ++i) d.push_back(P.g.diff(P.es[k].node, (int)i));
    Guard gd(P, P.es[k].node, 1);
    ref::Oracle o(P.g, P.point());
    bool in_dom = gd(o);
    for (size_t i = 0; i < P.v.size(); ++i)
      expect(in, "DevalF " + en(k) + " wrt x" + std::to_string(i), R1::DevalF(*P.es[k].e, P.hv((int)i)), when(in_dom, o.get(d[i])));
    if (in_dom) expect(in, "DevalF " + en(k) + " wrt absent variable", R1::DevalF(*P.es[k].e, other), o.get(P.g.zero_));
    direct(P, 1);
    leaves(P, 1);
  }
  in.nontrivial = in.checks >= 2 && P.es.size() >= 2;
}
static void p_rev(Choices& ch, Info& in) {
  Prog P(ch, in);
  P.build(8);
  Variable other((Type)1.25);
  for (int round = 0; round < 2; ++round) {
    int k = pick_e(P);
    if (round) {
      action_values(P);
      if (ch.draw(3) == 0) if (int m = P.mutate(); m >= 0) k = m;
    }
    std::vector<int> d;
    for (size_t i = 0; i < P.v.size(); ++i) d.push_back(P.g.diff(P.es[k].node, (int)i));
    Guard gd(P, P.es[k].node, 1);
    ref::Oracle o(P.g, P.point());
    bool in_dom = gd(o);
    in.desc << "PreComp(" << en(k) << "); ";
    if (ch.draw(4) == 0) {
      OMPair& m = R1::PreCompCache(*P.es[k].e);
      for (size_t i = 0; i < P.v.size(); ++i) {
        auto it = m.find(P.hv((int)i).m_nidx);
        expect(in, "PreCompCache " + en(k) + " x" + std::to_string(i), it == m.end() ? (Type)0 : it->second, when(in_dom, o.get(d[i])));
      }
    } else R1::PreComp(*P.es[k].e);
    for (size_t i = 0; i < P.v.size(); ++i)
      expect(in, "DevalR " + en(k) + " wrt x" + std::to_string(i), R1::DevalR(*P.es[k].e, P.hv((int)i)), when(in_dom, o.get(d[i])));
    if (in_dom) expect(in, "DevalR " + en(k) + " wrt absent variable", R1::DevalR(*P.es[k].e, other), o.get(P.g.zero_));
    leaves(P, 2);
  }
  in.nontrivial = in.checks >= 2 && P.es.size() >= 2;
}
static void p_sym(Choices& ch, Info& in) {
  Prog P(ch, in);
  P.crowded = false;
  P.build(4);
  int k = pick_e(P);
  int epochs = 1 + (ch.draw(3) == 0);
  for (int epoch = 0; epoch < epochs; ++epoch) {
  if (epoch) { // derivatives of an expression that got a new meaning since it was differentiated
    if (int m = P.mutate(); m >= 0) k = m; else break;
    in.label("differentiated again after a new meaning");
  }
  int order = 1 + (int)ch.pick({5, 4, 1});
  int nd = P.es[k].node;
  Expression* cur = P.es[k].e;
  std::string nm = en(k);
  std::vector<std::pair<Expression*, int>> chain;
  std::vector<std::string> names;
  for (int q = 0; q < order; ++q) {
    int i = ch.draw((uint32_t)P.v.size());
    nd = P.g.diff(nd, i);
    cur = &R1::SymDiff(*cur, P.hv((int)i));
    nm = "d(" + nm + ")/dx" + std::to_string(i);
    in.desc << nm << "; ";
    chain.push_back({cur, nd});
    names.push_back(nm);
  }
  for (int round = 0; round < 2; ++round) {
    if (round) action_values(P);
    std::vector<std::vector<int>> dd;
    for (auto& c : chain) { dd.emplace_back(); for (size_t i = 0; i < P.v.size(); ++i) dd.back().push_back(P.g.diff(c.second, (int)i)); }
    std::vector<Guard> gd;
    for (size_t q = 0; q <= chain.size(); ++q) gd.emplace_back(P, P.es[k].node, (int)q + 1);
    ref::Oracle o(P.g, P.point());
    for (size_t q = 0; q < chain.size(); ++q) {
      bool in_dom = gd[q](o), in_dom2 = gd[q + 1](o);
      expect(in, "Eval " + names[q], R1::Eval(*chain[q].first), when(in_dom, o.get(chain[q].second)));
      if (q < 2) {
        for (size_t i = 0; i < P.v.size(); ++i) expect(in, "DevalF " + names[q] + " wrt x" + std::to_string(i), R1::DevalF(*chain[q].first, P.hv((int)i)), when(in_dom2, o.get(dd[q][i])));
        R1::PreComp(*chain[q].first);
        for (size_t i = 0; i < P.v.size(); ++i) expect(in, "DevalR " + names[q] + " wrt x" + std::to_string(i), R1::DevalR(*chain[q].first, P.hv((int)i)), when(in_dom2, o.get(dd[q][i])));
      }
    }
    direct(P, 2);
    leaves(P, 3);
    // the differentiated expression itself still evaluates
    expect(in, "Eval " + en(k) + " after differentiation", R1::Eval(*P.es[k].e), o.get(P.es[k].node));
  }
  }
  in.nontrivial = in.checks >= 2 && P.es.size() >= 1;
}
// arbitrary interleavings
static void p_hist(Choices& ch, Info& in) {
  Prog P(ch, in);
  P.build(6);
  int steps = 4 + ch.draw(14);
  int reads = 0, kinds = 0;
  struct Sy { Expression* e; int node, base; };
  std::vector<Sy> syms;
  for (int s = 0; s < steps; ++s) {
    size_t a = ch.pick({4, 3, 3, 2, 2, 1, 1});
    if (a == 0) { action_values(P, 40); kinds |= 1; continue; }
    if (a == 6) { P.mutate(); kinds |= 1 << a; continue; }
    int k = pick_e(P);
    std::vector<int> d;
    for (size_t i = 0; i < P.v.size(); ++i) d.push_back(P.g.diff(P.es[k].node, (int)i));
    Guard gd(P, P.es[k].node, 1);
    int j = syms.empty() ? -1 : (int)ch.draw((uint32_t)syms.size());
    Guard gs(P, j < 0 ? P.es[k].node : syms[j].base, 1);
    ref::Oracle o(P.g, P.point());
    bool in_dom = gd(o);
    if (a == 1) {
      in.desc << "Eval(" << en(k) << "); ";
      reads += expect(in, "Eval " + en(k), R1::Eval(*P.es[k].e), o.get(P.es[k].node));
    } else if (a == 2) {
      int i = ch.draw((uint32_t)P.v.size());
      in.desc << "DevalF(" << en(k) << ",x" << i << "); ";
      reads += expect(in, "DevalF " + en(k), R1::DevalF(*P.es[k].e, P.hv((int)i)), when(in_dom, o.get(d[i])));
    } else if (a == 3) {
      in.desc << "PreComp(" << en(k) << ")+DevalR; ";
      R1::PreComp(*P.es[k].e);
      for (size_t i = 0; i < P.v.size(); ++i) reads += expect(in, "DevalR " + en(k) + " wrt x" + std::to_string(i), R1::DevalR(*P.es[k].e, P.hv((int)i)), when(in_dom, o.get(d[i])));
    } else if (a == 4) {
      int i = ch.draw((uint32_t)P.v.size());
      in.desc << "s" << syms.size() << "=SymDiff(" << en(k) << ",x" << i << "); ";
      syms.push_back({&R1::SymDiff(*P.es[k].e, P.hv((int)i)), d[i], P.es[k].node});
    } else if (j >= 0) {
      in.desc << "Eval(s" << j << "); ";
      reads += expect(in, "Eval s" + std::to_string(j), R1::Eval(*syms[j].e), when(gs(o), o.get(syms[j].node)));
    }
    kinds |= 1 << a;
  }
  in.nontrivial = reads >= 4 && __builtin_popcount(kinds) >= 3;
}

// everything at once on one program: used by the properties about particular kinds of program
static void sweep(Prog& P, Info& in, bool sym) {
  Choices& ch = P.ch;
  Variable other((Type)1.25);
  for (int round = 0; round < 3; ++round) {
    int k = pick_e(P);
    if (round) {
      action_values(P);
      if (ch.draw(3) == 0) if (int m = P.mutate(); m >= 0) k = m;
    }
    std::vector<int> d;
    for (size_t i = 0; i < P.v.size(); ++i) d.push_back(P.g.diff(P.es[k].node, (int)i));
    Guard gd(P, P.es[k].node, 1);
    ref::Oracle o(P.g, P.point());
    bool in_dom = gd(o);
    int order = ch.draw(3);
    for (int q = 0; q < 3; ++q) switch ((q + order) % 3) {
      case 0:
        expect(in, "Eval " + en(k), R1::Eval(*P.es[k].e), o.get(P.es[k].node));
        break;
      case 1:
        for (size_t i = 0; i < P.v.size(); ++i) expect(in, "DevalF " + en(k) + " wrt x" + std::to_string(i), R1::DevalF(*P.es[k].e, P.hv((int)i)), when(in_dom, o.get(d[i])));
        if (in_dom) expect(in, "DevalF " + en(k) + " wrt absent variable", R1::DevalF(*P.es[k].e, other), o.get(P.g.zero_));
        break;
      default:
        R1::PreComp(*P.es[k].e);
        for (size_t i = 0; i < P.v.size(); ++i) expect(in, "DevalR " + en(k) + " wrt x" + std::to_string(i), R1::DevalR(*P.es[k].e, P.hv((int)i)), when(in_dom, o.get(d[i])));
      }
    if (sym) {
      int i = ch.draw((uint32_t)P.v.size());
      Expression& s = R1::SymDiff(*P.es[k].e, P.hv(i));
      expect(in, "Eval SymDiff " + en(k) + " wrt x" + std::to_string(i), R1::Eval(s), when(in_dom, o.get(d[i])));
      if (ch.flip()) {
        action_values(P);
        Guard g2(P, P.es[k].node, 1);
        ref::Oracle o2(P.g, P.point());
        expect(in, "Eval SymDiff " + en(k) + " wrt x" + std::to_string(i) + " at another point", R1::Eval(s), when(g2(o2), o2.get(d[i])));
      }
    }
  }
}
static int count_label(Info& in, const std::string& pre) {
  int n = 0;
  for (auto& kv : in.labels) n += kv.first.rfind(pre, 0) == 0;
  return n;
}
static void p_loop(Choices& ch, Info& in) {
  Prog P(ch, in);
  P.w_rec = 30; P.maxrec = 9;
  P.build(4);
  // give an existing expression a new formula: it must mean that formula only
  if (ch.flip()) {
    int k = (int)P.es.size() - 1;
    Opd a = P.operand(false), b{};
    b.k = Opd::V; b.i = ch.draw((uint32_t)P.v.size()); b.node = P.g.var(b.i);
    if (!(a.k == Opd::E && a.i == k)) {
      int nd = P.g.un(ref::SIN, P.g.bin(ref::MUL, a.node, b.node));
      Variable& x = P.hv(b.i);
      Expression& e = *P.es[k].e;
      if (ch.flip()) R1::Eval(e);
      bool used = false; // an operand that refers to e would make the new formula recursive
      if (a.k == Opd::E) used = true;
      if (!used) {
        if (a.k == Opd::V) e = sin(*P.V(a) * x); else e = sin(*P.P(a) * x);
        P.es[k].node = nd;
        in.desc << "e" << k << " := sin(" << P.optext(a) << "*x" << b.i << "); ";
        in.label("reassigned");
      }
    }
  }
  sweep(P, in, true);
  in.nontrivial = in.checks >= 4 && in.labels.count("recursive");
}
static void p_alias(Choices& ch, Info& in) {
  Prog P(ch, in);
  P.w_alias = 4;
  P.build(6);
  sweep(P, in, true);
  direct(P, (int)ch.draw(3));
  leaves(P, (int)ch.draw(4));
  P.add_handles(); // handles made after the expressions denote the same quantities
  sweep(P, in, ch.flip());
  in.nontrivial = in.checks >= 4 && P.es.size() >= 2;
}
static void p_custom(Choices& ch, Info& in) {
  Prog P(ch, in);
  P.w_custom = 24;
  P.build(6);
  sweep(P, in, false);
  in.nontrivial = in.checks >= 4 && P.ncustom >= 1;
}
template <class A, class B> static void mixed(Info& in, A a, B b, LT la, LT lb, const char* what) {
  ref::Graph g;
  int x = g.cst(la), y = g.cst(lb);
  ref::Oracle o(g, ref::Point{});
  std::string t = std::string(what) + " " + ref::show(la) + "," + ref::show(lb);
  expect(in, "number + number, " + t, Type(a + b), o.get(g.bin(ref::ADD, x, y)));
  expect(in, "number - number, " + t, Type(a - b), o.get(g.bin(ref::SUB, x, y)));
  expect(in, "number * number, " + t, Type(a * b), o.get(g.bin(ref::MUL, x, y)));
  if (ref::mag(lb) > 1e-3) expect(in, "number / number, " + t, Type(a / b), o.get(g.bin(ref::DIV, x, y)));
  in.checks += 2;
  if ((a == b) != (la == lb)) throw Fail{"comparison a==b is wrong, " + t};
  if ((a != b) != (la != lb)) throw Fail{"comparison a!=b is wrong, " + t};
}
static void p_mixed(Choices& ch, Info& in) {
  if (ch.draw(6) == 0) {
    Real r = (Real)ch.real(3, true);
#if defined(USE_COMPLEX_MATH)
    Real re, im;
    switch (ch.draw(4)) { // components that coincide with the real operand are the interesting comparisons
    case 0: re = r; im = 0; break;
    case 1: re = r; im = (Real)ch.real(2); break;
    case 2: re = (Real)ch.real(2); im = r; break;
    default: re = (Real)ch.real(3, true); im = (Real)ch.real(3, true);
    }
    Type z(re, im);
#else
    Type z = ch.flip() ? r : (Type)ch.real(3, true);
#endif
    in.desc << "r=" << (double)r << " z=" << ref::show(ref::up(z)) << "; ";
    mixed(in, r, z, LT(r), ref::up(z), "real op number");
    mixed(in, z, r, ref::up(z), LT(r), "number op real");
    in.label("plain");
    in.nontrivial = in.checks >= 8;
    return;
  }
  Prog P(ch, in);
  P.w_lit = 24;
  P.build(6);
  sweep(P, in, true);
  in.nontrivial = in.checks >= 4 && P.ncustom >= 1;
}
#if defined(USE_COMPLEX_MATH)
// known finding K1: derivative of acosh in the left half plane has the wrong sign
static void p_k1(Choices& ch, Info& in) {
  Variable x(Type((Real)-1.5, (Real)0.75));
  Expression e = acosh(x);
  std::complex<long double> z(-1.5L, 0.75L), want = 1.0L / (std::sqrt(z - 1.0L) * std::sqrt(z + 1.0L));
  Type f = R1::DevalF(e, x);
  if (std::abs(ref::up(f) - want) > 1e-4) throw Fail{"d acosh(z)/dz at z=(-1.5,0.75): library " + ref::show(ref::up(f)) + ", true value " + ref::show(want)};
}
static pbt::Reg rk1({"K1", "", p_k1, 1, 1});
#endif

using pbt::Property;
using pbt::Reg;
#define MADE "random programs over 1-4 variables and 0-2 parameters (binary, unary, statically nested and loop-built formulas, operands shared); "
static Reg r1({"C01", MADE "every expression evaluated at 3 points; non-trivial: >=2 expressions and >=2 comparisons", p_eval, 60000, 600000});
static Reg r2({"C02", MADE "all forward derivatives at 2 points; non-trivial: >=2 expressions and >=2 comparisons", p_fwd, 60000, 600000});
static Reg r3({"C03", MADE "all reverse derivatives at 2 points; non-trivial: >=2 expressions and >=2 comparisons", p_rev, 60000, 600000});
static Reg r4({"C04", MADE "symbolic derivative chains of order 1-3, each re-evaluated and re-differentiated at 2 points; non-trivial: >=2 comparisons", p_sym, 30000, 300000});
static Reg r5({"C05", MADE "histories of 4-17 steps (set values, evaluate, forward, reverse, build and evaluate symbolic derivatives, extend or reassign an expression); non-trivial: >=3 kinds of step and >=4 compared reads", p_hist, 60000, 600000});
static Reg r6({"C06", MADE "with loop-built accumulators of up to 9 self-referencing assignments and re-assigned expressions; non-trivial: a loop-built expression and >=4 comparisons", p_loop, 40000, 400000});
static Reg r7({"C07", MADE "used through copied, assigned, moved and vector-relocated handles; non-trivial: >=2 expressions and >=4 comparisons", p_alias, 40000, 400000});
#ifdef WITH_EXTRA
static Reg r8({"C08", MADE "with user-defined unary/binary operators in every operand position; non-trivial: >=1 custom operator and >=4 comparisons", p_custom, 40000, 400000});
static Reg r9({"C09", MADE "with literals of 8 arithmetic types on either side of each operator, and plain real/complex arithmetic; non-trivial: >=1 such literal and >=4 comparisons, or >=8 plain comparisons", p_mixed, 40000, 400000});
#endif

#ifndef CONFIG_NAME
#define CONFIG_NAME none
#endif
int main(int argc, char** argv) { return pbt::harness_main(argc, argv, TOSTRING(CONFIG_NAME)); }
