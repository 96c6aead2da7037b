// Reference model for scalar expressions: an explicit formula DAG with its own
// symbolic differentiation and a long-double evaluator. Independent of the library.
#pragma once
#include "core.hpp"
#include <unordered_map>

namespace ref {
#if defined(USE_COMPLEX_MATH)
using LT = std::complex<long double>;
#else
using LT = long double;
#endif
using ld = long double;

enum Op { CONST, VAR, PAR, ADD, SUB, MUL, DIV, POW, NEG, SIN, COS, TAN, SINH, COSH, TANH, ASIN, ACOS, ATAN, ASINH, ACOSH, ATANH, SQRT, EXP, LOG, ABS, RELU, SIGN, STEP, LRELU, LSTEP, RHP, SIG };
inline const char* opname(int o) {
  static const char* n[] = {"const", "x", "p", "+", "-", "*", "/", "pow", "-", "sin", "cos", "tan", "sinh", "cosh", "tanh", "asin", "acos", "atan", "asinh", "acosh", "atanh", "sqrt", "exp", "log", "abs", "relu", "sign", "step", "lrelu", "lstep", "rhp", "sigmoid"};
  return n[o];
}

inline ld mag(const LT& v) { return std::abs(v); }
inline bool finite(const LT& v) {
#if defined(USE_COMPLEX_MATH)
  return std::isfinite(v.real()) && std::isfinite(v.imag());
#else
  return std::isfinite(v);
#endif
}

struct Node {
  int op;
  int a, b; // operands, or index of the variable/parameter
  LT c;     // constant
};

struct Graph;
// operator-friendly handle
struct R {
  Graph* g;
  int i;
};

// pseudo variable: the direction in which every variable and parameter moves. Its derivative is
// finite exactly where every local derivative the chain rule multiplies is finite.
constexpr int ALL = -1;

struct Graph {
  ld lim{1e7L}; // values beyond this are outside the compared domain
  std::vector<Node> n;
  std::map<std::pair<int, int>, int> dmemo;
  int zero_, one_;
  std::vector<int> varnode, parnode;
  std::vector<int> touched; // computed by the library on the way although the result does not depend on it
  Graph() { zero_ = cst(0); one_ = cst(1); }
  int add(Node k) { n.push_back(k); return (int)n.size() - 1; }
  int cst(LT v) { return add({CONST, 0, 0, v}); }
  int var(int k) { while ((int)varnode.size() <= k) varnode.push_back(add({VAR, (int)varnode.size(), 0, LT(0)})); return varnode[k]; }
  int par(int k) { while ((int)parnode.size() <= k) parnode.push_back(add({PAR, (int)parnode.size(), 0, LT(0)})); return parnode[k]; }
  int un(int op, int a) { return add({op, a, 0, LT(0)}); }
  int bin(int op, int a, int b) { return add({op, a, b, LT(0)}); }
  // simplifying constructors, used by diff only
  int mul(int a, int b) { if (a == zero_ || b == zero_) return zero_; if (a == one_) return b; if (b == one_) return a; return bin(MUL, a, b); }
  int plus(int a, int b) { if (a == zero_) return b; if (b == zero_) return a; return bin(ADD, a, b); }
  int neg(int a) { return a == zero_ ? zero_ : un(NEG, a); }
  int div(int a, int b) { return a == zero_ ? zero_ : bin(DIV, a, b); }
  int sq(int a) { return bin(MUL, a, a); }
  int diff(int i, int v) {
    auto key = std::make_pair(i, v);
    auto it = dmemo.find(key);
    if (it != dmemo.end()) return it->second;
    Node k = n[i];
    int r = zero_;
    auto U = [&] { return diff(k.a, v); };
    switch (k.op) {
    case CONST: r = zero_; break;
    case PAR: r = v == ALL ? one_ : zero_; break;
    case VAR: r = (k.a == v || v == ALL) ? one_ : zero_; break;
    case ADD: r = plus(diff(k.a, v), diff(k.b, v)); break;
    case SUB: { int p = diff(k.a, v), q = diff(k.b, v); r = q == zero_ ? p : bin(SUB, p, q); break; }
    case MUL: { int p = diff(k.a, v), q = diff(k.b, v); r = plus(mul(p, k.b), mul(k.a, q)); break; }
    case DIV: { // a'/b - a b'/b^2
      int p = diff(k.a, v), q = diff(k.b, v);
      r = div(p, k.b);
      if (q != zero_) r = plus(r, neg(div(mul(k.a, q), sq(k.b))));
      break;
    }
    case POW: { // b a^(b-1) a' + a^b log(a) b'
      int p = diff(k.a, v), q = diff(k.b, v);
      if (p != zero_) r = mul(mul(k.b, bin(POW, k.a, bin(SUB, k.b, one_))), p);
      if (q != zero_) r = plus(r, mul(mul(i, un(LOG, k.a)), q));
      break;
    }
    case NEG: r = neg(U()); break;
    case SIN: { int u = U(); r = u == zero_ ? u : mul(un(COS, k.a), u); break; }
    case COS: { int u = U(); r = u == zero_ ? u : neg(mul(un(SIN, k.a), u)); break; }
    case TAN: { int u = U(); r = u == zero_ ? u : mul(bin(ADD, one_, sq(i)), u); break; } // a form that cancels far from the real axis, so that its condition counts
    case SINH: { int u = U(); r = u == zero_ ? u : mul(un(COSH, k.a), u); break; }
    case COSH: { int u = U(); r = u == zero_ ? u : mul(un(SINH, k.a), u); break; }
    case TANH: { int u = U(); r = u == zero_ ? u : mul(bin(SUB, one_, sq(i)), u); break; }
    case ASIN: { int u = U(); if (u != zero_) r = div(u, un(SQRT, bin(SUB, one_, sq(k.a)))); break; }
    case ACOS: { int u = U(); if (u != zero_) r = neg(div(u, un(SQRT, bin(SUB, one_, sq(k.a))))); break; }
    case ATAN: { int u = U(); if (u != zero_) r = div(u, bin(ADD, one_, sq(k.a))); break; }
    case ASINH: { int u = U(); if (u != zero_) r = div(u, un(SQRT, bin(ADD, one_, sq(k.a)))); break; }
    case ACOSH: { // product form stays on the principal branch for complex arguments
      int u = U();
      if (u != zero_) { int a = un(RHP, k.a); r = div(u, bin(MUL, un(SQRT, bin(SUB, a, one_)), un(SQRT, bin(ADD, a, one_)))); }
      break;
    }
    case ATANH: { int u = U(); if (u != zero_) r = div(u, bin(SUB, one_, sq(k.a))); break; }
    case SQRT: { int u = U(); if (u != zero_) r = div(u, bin(MUL, cst(2), i)); break; }
    case EXP: r = mul(i, U()); break;
    case LOG: { int u = U(); r = div(u, k.a); break; }
    case ABS: { int u = U(); r = mul(un(SIGN, k.a), u); break; }
    case RHP: r = U(); break;
    case SIG: { int u = U(); r = u == zero_ ? u : mul(mul(i, bin(SUB, one_, i)), u); break; }
    case RELU: { int u = U(); r = mul(un(STEP, k.a), u); break; }
    case LRELU: { int u = U(); r = mul(un(LSTEP, k.a), u); break; }
    default: r = zero_;
    }
    dmemo[key] = r;
    return r;
  }
};

inline LT apply1(int op, const LT& a) {
  switch (op) {
  case NEG: return -a;
  case SIG: return LT(1) / (LT(1) + std::exp(-a));
  case RHP: return a; // identity; marks known finding K1 (see on_cut)
  case SIN: return std::sin(a);
  case COS: return std::cos(a);
  case TAN: return std::tan(a);
  case SINH: return std::sinh(a);
  case COSH: return std::cosh(a);
  case TANH: return std::tanh(a);
  case ASIN: return std::asin(a);
  case ACOS: return std::acos(a);
  case ATAN: return std::atan(a);
  case ASINH: return std::asinh(a);
  case ACOSH: return std::acosh(a);
  case ATANH: return std::atanh(a);
  case SQRT: return std::sqrt(a);
  case EXP: return std::exp(a);
  case LOG: return std::log(a);
#if !defined(USE_COMPLEX_MATH)
  case ABS: return std::fabs(a);
  case SIGN: return a > 0 ? 1 : (a < 0 ? -1 : 0);
  case RELU: return a > 0 ? a : 0;
  case STEP: return a > 0 ? 1 : 0;
  case LRELU: return a > 0 ? a : a * (ld)0.01;
  case LSTEP: return a > 0 ? 1 : (ld)0.01;
#endif
  default: return LT(0);
  }
}
inline LT apply2(int op, const LT& a, const LT& b) {
  switch (op) {
  case ADD: return a + b;
  case SUB: return a - b;
  case MUL: return a * b;
  case DIV: return a / b;
  case POW: return std::pow(a, b);
  default: return LT(0);
  }
}

// Complex functions have branch cuts: on or next to a cut the value depends on rounding (or on the
// sign of a zero), so nothing can be compared there.
inline bool on_cut(int op, const LT& a) {
#if defined(USE_COMPLEX_MATH)
  ld re = a.real(), im = a.imag(), t = 1e-5L * (1 + mag(a));
  switch (op) {
  case LOG: case SQRT: case POW: return re < t && std::fabs(im) < t;
  case ASIN: case ACOS: case ATANH: return std::fabs(re) > 1 - t && std::fabs(im) < t;
  case ACOSH: return re < 1 + t && std::fabs(im) < t;
  case RHP: return re < t; // K1: derivative of acosh in the left half plane
  case ATAN: case ASINH: return std::fabs(im) > 1 - t && std::fabs(re) < t;
  }
#else
  if (op == SIGN || op == STEP || op == LSTEP) return std::fabs(a) < 1e-4L; // no derivative at the kink
#endif
  return false;
}

// the operation is defined here but its derivative is infinite
inline bool singular(int op, const LT& a) {
  const ld t = 1e-6L;
  switch (op) {
  case SQRT: case POW: return mag(a) < t;
  case ASIN: case ACOS: case ACOSH: case ATANH: return mag(a * a - LT(1)) < t;
  case ATAN: case ASINH: return mag(a * a + LT(1)) < t;
  }
  return false;
}

// a computed operand next to the end of a real function's domain may fall outside by rounding alone
inline bool on_edge(int op, const LT& a) {
#if !defined(USE_COMPLEX_MATH)
  switch (op) {
  case ASIN: case ACOS: case ACOSH: case ATANH: return mag(a * a - LT(1)) < 1e-6L;
  case SQRT: case LOG: return mag(a) < 1e-6L;
  }
#endif
  return false;
}

struct Point {
  std::vector<LT> v, p;
};

// powers of negative reals are defined for integer exponents only; a computed exponent need not be exact
inline bool neg_base(const LT& a) {
#if defined(USE_COMPLEX_MATH)
  return false;
#else
  return a < 1e-9L;
#endif
}

// Evaluate with an optional relative perturbation of every leaf and every intermediate result.
struct Evaluator {
  const Graph& g;
  const Point& pt;
  ld eps;
  uint64_t st;
  std::vector<LT> val;
  std::vector<char> have, bad; // bad: outside the comparable domain (branch cut, too large)
  std::vector<char> edge;      // edge: some operation below is next to the end of its domain
  std::vector<char> sing;      // sing: some operation below has no finite derivative here
  Evaluator(const Graph& g_, const Point& p_, ld e = 0, uint64_t seed = 0) : g{g_}, pt{p_}, eps{e}, st{seed} { val.resize(g.n.size()); have.assign(g.n.size(), 0); bad = sing = edge = have; }
  LT jig(const LT& v) {
    if (eps == 0) return v;
    auto u = [&] { return ((ld)(pbt::splitmix(st) >> 11) / 9007199254740992.0L) * 2 - 1; };
#if defined(USE_COMPLEX_MATH)
    return v * (LT(1) + LT(u(), u()) * eps);
#else
    return v * (1 + u() * eps);
#endif
  }
  LT get(int root) {
    if (val.size() < g.n.size()) { val.resize(g.n.size()); have.resize(g.n.size(), 0); bad.resize(g.n.size(), 0); sing.resize(g.n.size(), 0); edge.resize(g.n.size(), 0); }
    // explicit stack: graphs may be deep
    std::vector<int> sk{root};
    while (!sk.empty()) {
      int i = sk.back();
      if (have[i]) { sk.pop_back(); continue; }
      const Node& k = g.n[i];
      if (k.op == CONST) { val[i] = k.c; have[i] = 1; sk.pop_back(); continue; }
      if (k.op == VAR) { val[i] = jig(pt.v.at(k.a)); have[i] = 1; sk.pop_back(); continue; }
      if (k.op == PAR) { val[i] = jig(pt.p.at(k.a)); have[i] = 1; sk.pop_back(); continue; }
      bool two = k.op >= ADD && k.op <= POW;
      if (!have[k.a]) { sk.push_back(k.a); continue; }
      if (two && !have[k.b]) { sk.push_back(k.b); continue; }
      LT r = two ? apply2(k.op, val[k.a], val[k.b]) : apply1(k.op, val[k.a]);
      bad[i] = !(mag(r) <= g.lim) || (k.op == DIV && mag(val[k.b]) < 1e-7L) || (k.op == POW && neg_base(val[k.a]) && g.n[k.b].op != CONST) || on_cut(k.op, val[k.a]) || (g.n[k.a].op > PAR && on_edge(k.op, val[k.a])) || bad[k.a] || (two && bad[k.b]);
      edge[i] = on_edge(k.op, val[k.a]) || edge[k.a] || (two && edge[k.b]);
      sing[i] = singular(k.op, val[k.a]) || sing[k.a] || (two && sing[k.b]);
      val[i] = jig(r);
      have[i] = 1;
      sk.pop_back();
    }
    return val[root];
  }
};

struct Val {
  LT v;
  ld sens;  // first order sensitivity to relative perturbations of all intermediates
  bool ok;  // finite, moderate and well conditioned
};

struct Oracle {
  const Graph& g;
  Point pt;
  std::vector<Evaluator> ev; // [0] exact, rest perturbed
  static constexpr ld EPS = 1e-7L;
  Oracle(const Graph& g_, Point p) : g{g_}, pt{std::move(p)} {
    ev.emplace_back(g, pt, 0, 0);
    for (int k = 1; k <= 4; ++k) ev.emplace_back(g, pt, EPS, 1000003ull * k);
  }
  Oracle(const Oracle&) = delete;
  Val get(int node) {
    Val r{};
    r.v = ev[0].get(node);
    r.ok = finite(r.v);
    for (size_t k = 1; k < ev.size() && r.ok; ++k) {
      LT w = ev[k].get(node);
      if (!finite(w)) { r.ok = false; break; }
      r.sens = std::max(r.sens, mag(w - r.v) / EPS);
    }
    if (r.ok && ev[0].bad[node]) r.ok = false;
    if (r.ok && r.sens > 1e5L * (1 + mag(r.v))) r.ok = false;
    return r;
  }
};

inline bool singular_below(Oracle& o, const std::vector<int>& nodes) {
  for (int k : nodes) { o.ev[0].get(k); if (o.ev[0].sing[k]) return true; }
  return false;
}

inline std::string show(const LT& v) {
  std::ostringstream os;
  os.precision(10);
#if defined(USE_COMPLEX_MATH)
  os << "(" << (double)v.real() << "," << (double)v.imag() << ")";
#else
  os << (double)v;
#endif
  return os.str();
}
inline std::string str(const Graph& g, int i, int depth = 12) {
  const Node& k = g.n[i];
  if (k.op == CONST) return show(k.c);
  if (k.op == VAR) return "x" + std::to_string(k.a);
  if (k.op == PAR) return "p" + std::to_string(k.a);
  if (depth == 0) return "...";
  if (k.op == POW) return "pow(" + str(g, k.a, depth - 1) + "," + str(g, k.b, depth - 1) + ")";
  if (k.op >= ADD && k.op <= DIV) return "(" + str(g, k.a, depth - 1) + opname(k.op) + str(g, k.b, depth - 1) + ")";
  return std::string(opname(k.op)) + "(" + str(g, k.a, depth - 1) + ")";
}

// machine precision of the library's scalar
#if COOLDIFF_SCALAR_TYPE == 1
constexpr ld TOLC = 6e-8L * 2e3L;
#else
constexpr ld TOLC = 2.3e-16L * 2e5L;
#endif

template <class T> inline LT up(const T& x) {
#if defined(USE_COMPLEX_MATH)
  return LT(x.real(), x.imag());
#else
  return (LT)x;
#endif
}

// operators so that generated program text can be instantiated on R as well
#define REF_BIN(OPC, NAME)                                                     \
  inline R operator OPC(R a, R b) { return {a.g, a.g->bin(NAME, a.i, b.i)}; }  \
  inline R operator OPC(R a, LT b) { return {a.g, a.g->bin(NAME, a.i, a.g->cst(b))}; } \
  inline R operator OPC(LT a, R b) { return {b.g, b.g->bin(NAME, b.g->cst(a), b.i)}; }
REF_BIN(+, ADD) REF_BIN(-, SUB) REF_BIN(*, MUL) REF_BIN(/, DIV)
inline R operator-(R a) { return {a.g, a.g->un(NEG, a.i)}; }
inline R pow(R a, R b) { return {a.g, a.g->bin(POW, a.i, b.i)}; }
inline R pow(R a, LT b) { return {a.g, a.g->bin(POW, a.i, a.g->cst(b))}; }
inline R pow(LT a, R b) { return {b.g, b.g->bin(POW, b.g->cst(a), b.i)}; }
#define REF_UN(F, NAME) inline R F(R a) { return {a.g, a.g->un(NAME, a.i)}; }
REF_UN(sin, SIN) REF_UN(cos, COS) REF_UN(tan, TAN) REF_UN(sinh, SINH) REF_UN(cosh, COSH) REF_UN(tanh, TANH)
REF_UN(asin, ASIN) REF_UN(acos, ACOS) REF_UN(atan, ATAN) REF_UN(asinh, ASINH) REF_UN(acosh, ACOSH) REF_UN(atanh, ATANH)
REF_UN(sqrt, SQRT) REF_UN(exp, EXP) REF_UN(log, LOG)
} // namespace ref
