// Random matrix programs built against the library and against the reference at once.
#pragma once
#include "CoolDiff.hpp"
#include "scalar_prog.hpp"

namespace mp {
using pbt::Choices;
using pbt::Discard;
using pbt::Fail;
using pbt::Info;
using ref::Graph;
using ref::LT;
using ref::R;

// ---------------------------------------------------------------- reference matrices
struct RM {
  Graph* g;
  int r, c;
  std::vector<int> n;
  RM(Graph* g_ = nullptr, int r_ = 0, int c_ = 0) : g{g_}, r{r_}, c{c_}, n((size_t)r_ * c_, 0) {}
  int& at(int i, int j) { return n[(size_t)i * c + j]; }
  int at(int i, int j) const { return n[(size_t)i * c + j]; }
};
struct Shape_error {};
inline void want(bool b) { if (!b) throw Shape_error{}; }
inline RM zip(const RM& a, const RM& b, int op) {
  want(a.r == b.r && a.c == b.c);
  RM o(a.g, a.r, a.c);
  for (size_t k = 0; k < o.n.size(); ++k) o.n[k] = a.g->bin(op, a.n[k], b.n[k]);
  return o;
}
inline RM with(const RM& a, int s, int op, bool left) {
  RM o(a.g, a.r, a.c);
  for (size_t k = 0; k < o.n.size(); ++k) o.n[k] = left ? a.g->bin(op, s, a.n[k]) : a.g->bin(op, a.n[k], s);
  return o;
}
inline RM each(const RM& a, const std::function<int(int)>& f) {
  RM o(a.g, a.r, a.c);
  for (size_t k = 0; k < o.n.size(); ++k) o.n[k] = f(a.n[k]);
  return o;
}
inline RM operator+(const RM& a, const RM& b) { return zip(a, b, ref::ADD); }
inline RM operator-(const RM& a, const RM& b) { return zip(a, b, ref::SUB); }
inline RM operator^(const RM& a, const RM& b) { return zip(a, b, ref::MUL); }
inline RM operator/(const RM& a, const RM& b) { return zip(a, b, ref::DIV); }
inline RM operator*(const RM& a, const RM& b) {
  want(a.c == b.r);
  RM o(a.g, a.r, b.c);
  for (int i = 0; i < o.r; ++i)
    for (int j = 0; j < o.c; ++j) {
      int s = a.g->bin(ref::MUL, a.at(i, 0), b.at(0, j));
      for (int k = 1; k < a.c; ++k) s = a.g->bin(ref::ADD, s, a.g->bin(ref::MUL, a.at(i, k), b.at(k, j)));
      o.at(i, j) = s;
    }
  return o;
}
#define MP_MIX(OPC, NAME)                                                                  \
  inline RM operator OPC(R s, const RM& a) { return with(a, s.i, NAME, true); }            \
  inline RM operator OPC(const RM& a, R s) { return with(a, s.i, NAME, false); }           \
  inline RM operator OPC(LT s, const RM& a) { return with(a, a.g->cst(s), NAME, true); }   \
  inline RM operator OPC(const RM& a, LT s) { return with(a, a.g->cst(s), NAME, false); }
MP_MIX(+, ref::ADD) MP_MIX(-, ref::SUB) MP_MIX(*, ref::MUL) MP_MIX(/, ref::DIV)

inline int det_of(const RM& a, std::vector<int> rows, std::vector<int> cols) {
  Graph* g = a.g;
  if (rows.size() == 1) return a.at(rows[0], cols[0]);
  int s = -1;
  std::vector<int> rr(rows.begin() + 1, rows.end());
  for (size_t k = 0; k < cols.size(); ++k) {
    auto cc = cols;
    cc.erase(cc.begin() + k);
    int t = g->bin(ref::MUL, a.at(rows[0], cols[k]), det_of(a, rr, cc));
    s = s < 0 ? t : g->bin(k % 2 ? ref::SUB : ref::ADD, s, t);
  }
  return s;
}
inline std::vector<int> upto(int n) { std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i; return v; }
// nodes that must stay away from zero (determinants of inverted matrices), per graph
inline std::vector<int>& away_from_zero() { static std::vector<int> v; return v; }
inline RM det(const RM& a) {
  want(a.r == a.c && a.r <= 5);
  RM o(a.g, 1, 1);
  o.n[0] = det_of(a, upto(a.r), upto(a.r));
  away_from_zero().push_back(o.n[0]); // its derivative is computed through the inverse
  return o;
}
inline RM inv(const RM& a) {
  want(a.r == a.c && a.r <= 5);
  RM o(a.g, a.r, a.c);
  int d = det_of(a, upto(a.r), upto(a.r));
  away_from_zero().push_back(d);
  for (int i = 0; i < a.r; ++i)
    for (int j = 0; j < a.r; ++j) {
      if (a.r == 1) { o.n[0] = a.g->bin(ref::DIV, a.g->one_, d); continue; }
      auto rr = upto(a.r), cc = upto(a.r);
      rr.erase(rr.begin() + j);
      cc.erase(cc.begin() + i);
      int m = det_of(a, rr, cc);
      if ((i + j) % 2) m = a.g->un(ref::NEG, m);
      o.at(i, j) = a.g->bin(ref::DIV, m, d);
    }
  return o;
}
inline RM operator%(const RM& a, const RM& b) { return a * inv(b); }
inline RM transpose(const RM& a) {
  RM o(a.g, a.c, a.r);
  for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) o.at(j, i) = a.at(i, j);
  return o;
}
inline RM vec(const RM& a) { RM o = a; o.r = a.r * a.c; o.c = 1; return o; } // rows after one another
inline int sum(const RM& a, const std::vector<int>& v) { int s = v[0]; for (size_t k = 1; k < v.size(); ++k) s = a.g->bin(ref::ADD, s, v[k]); return s; }
template <Axis ax = Axis::ALL> inline RM Sigma(const RM& a) {
  if (ax == Axis::ROW) {
    RM o(a.g, 1, a.c);
    for (int j = 0; j < a.c; ++j) { std::vector<int> v; for (int i = 0; i < a.r; ++i) v.push_back(a.at(i, j)); o.n[j] = sum(a, v); }
    return o;
  }
  if (ax == Axis::COLUMN) {
    RM o(a.g, a.r, 1);
    for (int i = 0; i < a.r; ++i) { std::vector<int> v; for (int j = 0; j < a.c; ++j) v.push_back(a.at(i, j)); o.n[i] = sum(a, v); }
    return o;
  }
  RM o(a.g, 1, 1);
  o.n[0] = sum(a, a.n);
  return o;
}
inline RM trace(const RM& a) {
  want(a.r == a.c);
  a.g->touched.insert(a.g->touched.end(), a.n.begin(), a.n.end());
  RM o(a.g, 1, 1);
  std::vector<int> v;
  for (int i = 0; i < a.r; ++i) v.push_back(a.at(i, i));
  o.n[0] = sum(a, v);
  return o;
}
template <Axis ax = Axis::ALL> inline RM broadcast(const RM& a, size_t k) {
  want(a.r == 1 || a.c == 1);
  if (ax == Axis::COLUMN) { // a column repeated n times (a 1x1 or column operand)
    want(a.c == 1);
    RM o(a.g, a.r, (int)k);
    for (int i = 0; i < o.r; ++i) for (int j = 0; j < o.c; ++j) o.at(i, j) = a.at(i, 0);
    return o;
  }
  if (ax == Axis::ROW) {
    want(a.r == 1);
    RM o(a.g, (int)k, a.c);
    for (int i = 0; i < o.r; ++i) for (int j = 0; j < o.c; ++j) o.at(i, j) = a.at(0, j);
    return o;
  }
  want(a.r == 1 && a.c == 1);
  RM o(a.g, (int)k, (int)k);
  for (auto& x : o.n) x = a.n[0];
  return o;
}
template <ConcatAxis ax = ConcatAxis::VERTICAL> inline RM concat(const RM& a, const RM& b) {
  if (ax == ConcatAxis::VERTICAL) {
    want(a.c == b.c);
    RM o(a.g, a.r + b.r, a.c);
    for (int i = 0; i < o.r; ++i) for (int j = 0; j < o.c; ++j) o.at(i, j) = i < a.r ? a.at(i, j) : b.at(i - a.r, j);
    return o;
  }
  want(a.r == b.r);
  RM o(a.g, a.r, a.c + b.c);
  for (int i = 0; i < o.r; ++i) for (int j = 0; j < o.c; ++j) o.at(i, j) = j < a.c ? a.at(i, j) : b.at(i, j - a.c);
  return o;
}
inline RM conv(const RM& u, const RM& v, size_t sx = 1, size_t sy = 1, size_t px = 0, size_t py = 0) {
  int R_ = (u.r + 2 * (int)px - v.r), C_ = (u.c + 2 * (int)py - v.c);
  want(R_ >= 0 && C_ >= 0);
  for (auto* m : {&u, &v}) u.g->touched.insert(u.g->touched.end(), m->n.begin(), m->n.end());
  RM o(u.g, R_ / (int)sx + 1, C_ / (int)sy + 1);
  for (int i = 0; i < o.r; ++i)
    for (int j = 0; j < o.c; ++j) {
      int s = u.g->zero_;
      for (int a = 0; a < v.r; ++a)
        for (int b = 0; b < v.c; ++b) {
          int y = i * (int)sx + a - (int)px, x = j * (int)sy + b - (int)py;
          if (y < 0 || x < 0 || y >= u.r || x >= u.c) continue;
          s = u.g->bin(ref::ADD, s, u.g->bin(ref::MUL, u.at(y, x), v.at(a, b)));
        }
      o.at(i, j) = s;
    }
  return o;
}
inline RM un(const RM& a, int op) { return each(a, [&](int k) { return a.g->un(op, k); }); }
inline RM SinM(const RM& a) { return un(a, ref::SIN); }
inline RM CosM(const RM& a) { return un(a, ref::COS); }
inline RM ExpM(const RM& a) { return un(a, ref::EXP); }
inline RM LogM(const RM& a) { return un(a, ref::LOG); }
inline RM SqrtM(const RM& a) { return un(a, ref::SQRT); }
inline RM TanhM(const RM& a) { return un(a, ref::TANH); }
inline RM ReLUM(const RM& a) { return un(a, ref::RELU); }
inline RM LeakyReLUM(const RM& a) { return un(a, ref::LRELU); }
inline RM AbsM(const RM& a) { return un(a, ref::ABS); }
inline RM SigmoidM(const RM& a) { Graph* g = a.g; return each(a, [=](int k) { return g->un(ref::SIG, k); }); }
inline RM RecipM(const RM& a) { return each(a, [&](int k) { return a.g->bin(ref::DIV, a.g->one_, k); }); }
inline RM MatrixFrobeniusNorm(const RM& a) { return SqrtM(Sigma(a ^ a)); }
template <Axis ax = Axis::ALL> inline RM SoftMax(const RM& a) {
  RM e = ExpM(a), s = Sigma<ax>(e), o(a.g, a.r, a.c);
  for (int i = 0; i < a.r; ++i)
    for (int j = 0; j < a.c; ++j) o.at(i, j) = a.g->bin(ref::DIV, e.at(i, j), ax == Axis::ROW ? s.at(0, j) : ax == Axis::COLUMN ? s.at(i, 0) : s.at(0, 0));
  return o;
}
inline RM eye(Graph* g, int n) { RM o(g, n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) o.at(i, j) = i == j ? g->one_ : g->zero_; return o; }
inline RM full(Graph* g, int r, int c, LT v) { RM o(g, r, c); int k = g->cst(v); for (auto& x : o.n) x = k; return o; }
template <size_t N> inline RM pow(const RM& a) { want(a.r == a.c); RM o = eye(a.g, a.r); for (size_t k = 0; k < N; ++k) o = k ? o * a : a; return o; }
template <size_t N = 20> inline RM MatrixExp(const RM& a) { // truncated series, terms 0..N
  RM o = eye(a.g, a.r), p = o;
  LT f = 1;
  for (size_t k = 1; k <= N; ++k) { p = k > 1 ? p * a : a; f *= (ref::ld)k; o = o + p / f; }
  return o;
}
template <size_t N = 20> inline RM MatrixLog(const RM& a) { // -sum (I-X)^k/k, k=1..N
  RM d = eye(a.g, a.r) - a, p = d, o = (LT)(-1) * d;
  for (size_t k = 2; k <= N; ++k) { p = p * d; o = o - p / (LT)(ref::ld)k; }
  return o;
}

// ---------------------------------------------------------------- operands of the library
enum Kind { E, V, T, P };
struct Mat {
  Kind k;
  void* p;
  Matrix<Expression>& e() const { return *(Matrix<Expression>*)p; }
  Matrix<Variable>& v() const { return *(Matrix<Variable>*)p; }
  Matrix<Type>& t() const { return *(Matrix<Type>*)p; }
  Matrix<Parameter>& q() const { return *(Matrix<Parameter>*)p; }
};
inline Matrix<Expression>* keep(Matrix<Expression>& m) { return &m; }
// ways of naming a formula
template <class X> inline Matrix<Expression>* make(const IMatrix<X>& x, int style) {
  switch (style) {
  case 1: { auto* m = new Matrix<Expression>(); *m = x; return m; }
  case 2: return new Matrix<Expression>(x);
  case 3: { auto* m = new Matrix<Expression>(2, 3); *m = x; return m; }
  default: return &Matrix<Expression>::MatrixFactory::CreateMatrix(x);
  }
}
constexpr int STYLES = 4;
// which operand kinds a group of operations is instantiated for (bounds the build time)
enum Set { EV, EVT, EVTP };
template <Set s = EVTP, class F> inline Matrix<Expression>* visit1(const Mat& a, F f) {
  switch (a.k) {
  case E: return f(a.e());
  case V: return f(a.v());
  case T: if constexpr (s != EV) return f(a.t()); throw Shape_error{};
  default: if constexpr (s == EVTP) return f(a.q()); throw Shape_error{};
  }
}
template <Set s = EVTP, class F> inline Matrix<Expression>* visit2(const Mat& a, const Mat& b, F f) {
  if (a.k == E && b.k == E) return f(a.e(), b.e());
  if (a.k == E && b.k == V) return f(a.e(), b.v());
  if (a.k == V && b.k == E) return f(a.v(), b.e());
  if (a.k == E && b.k == T) return f(a.e(), b.t());
  if (a.k == T && b.k == E) return f(a.t(), b.e());
  if (a.k == V && b.k == V) return f(a.v(), b.v());
  if (a.k == V && b.k == T) return f(a.v(), b.t());
  if (a.k == T && b.k == V) return f(a.t(), b.v());
  if (a.k == T && b.k == T) return f(a.t(), b.t());
  if constexpr (s == EVTP) {
  if (a.k == P && b.k == E) return f(a.q(), b.e());
  if (a.k == E && b.k == P) return f(a.e(), b.q());
  if (a.k == P && b.k == V) return f(a.q(), b.v());
  if (a.k == V && b.k == P) return f(a.v(), b.q());
  }
  throw Shape_error{};
}
inline bool pair_ok(Kind a, Kind b) { return !((a == P && (b == P || b == T)) || (b == P && a == T)); }

enum BinOp { B_ADD, B_SUB, B_MUL, B_HAD, B_DIV, B_MOD, B_CATV, B_CATH, B_COUNT };
enum UnOp {
  U_SIN, U_COS, U_EXP, U_LOG, U_SQRT, U_TANH, U_SIGM, U_RELU, U_LRELU, U_ABS, U_T, U_INV, U_DET, U_TRACE, U_VEC,
  U_SIG, U_SIGR, U_SIGC, U_BRO, U_BROR, U_BROC, U_SOFT, U_SOFTR, U_SOFTC, U_FROB, U_POW0, U_POW1, U_POW2, U_POW3, U_MEXP, U_MLOG, U_CUSTOM, U_RECIP, U_POWH, U_EXPH, U_LOGH, U_MEXPD, U_MLOGD, U_MEXP22, U_COUNT
};
enum MixOp { M_ADDL, M_ADDR, M_SUBL, M_SUBR, M_MULL, M_MULR, M_DIVR, M_COUNT };
const char* bin_name(int);
const char* un_name(int);
const char* mix_name(int);
Matrix<Expression>* lib_mbin_a(int op, const Mat& a, const Mat& b, int style);
Matrix<Expression>* lib_mbin_b(int op, const Mat& a, const Mat& b, int style);
void lib_assign(int op, Matrix<Expression>& m, const Mat& a, const Mat& b);
// extensions of an expression by itself: with another operand, and alone
enum Ext { X_ADD, X_RSUB, X_HAD, X_AXPY, X_MUL, X_RMUL, X_SINADD, X_HADSUB, X_DIVEXP, X_CATV, X_CATH, X_MULT, X_COUNT };
enum Ext1 { Y_SIN, Y_HALF, Y_T, Y_TWO, Y_DBL, Y_LOGISTIC, Y_SQ, Y_GRAM, Y_VEC, Y_SUM, Y_TRACE, Y_VAR, Y_VARADD, Y_TANH, Y_EXPHAD, Y_COUNT };
void lib_step(int f, Matrix<Expression>& m, const Mat& it);
void lib_step1(int f, Matrix<Expression>& m, Variable* s);
Matrix<Expression>* lib_mun_a(int op, const Mat& a, size_t n, int style);
Matrix<Expression>* lib_mun_b(int op, const Mat& a, size_t n, int style);
Matrix<Expression>* lib_mun_c(int op, const Mat& a, size_t n, int style);
Matrix<Expression>* lib_mexp_long(int op, const Mat& a, int style);
Matrix<Expression>* lib_mlog_long(const Mat& a, int style);
Matrix<Expression>* lib_mhigh(int op, const Mat& a, size_t which, int style); // powers and series with other lengths
inline constexpr int pow_len[] = {4, 5, 6, 7, 8, 9, 11, 13}, exp_len[] = {0, 1, 2, 3, 6, 7, 9, 12}, log_len[] = {1, 2, 3, 5, 6, 7, 9, 12};
Matrix<Expression>* lib_conv(const Mat& a, const Mat& b, size_t sx, size_t sy, size_t px, size_t py, int style);
// scalar operand: number, variable, parameter or expression
struct Sc { enum K { N, V, P, E } k; Type n; Variable* v; Parameter* p; Expression* e; };
Matrix<Expression>* lib_mix(int op, const Sc& s, const Mat& a, int style);
RM ref_mbin(int op, const RM& a, const RM& b);
RM ref_mun(int op, const RM& a, size_t n);
RM ref_mix(int op, int s, const RM& a);

// ---------------------------------------------------------------- statically nested formulas
struct MProg;
struct LibCtx;
struct RefCtx;
struct MShape {
  int id;
  const char* text;
  bool rev; // usable in reverse mode: scalar result, only direct operands
  bool inv; // needs the Eigen backend (inverse, determinant)
  Matrix<Expression>* (*lib)(LibCtx&, size_t m, size_t n, int style);
  RM (*model)(RefCtx&, size_t m, size_t n);
};
inline std::map<int, MShape>& mshapes() { static std::map<int, MShape> s; return s; }
struct MShapeReg {
  MShapeReg(int id, const char* t, bool rev, bool inv, decltype(MShape::lib) l, decltype(MShape::model) m) { mshapes()[id] = {id, t, rev, inv, l, m}; }
};

struct Ent {
  Mat m;
  RM r;
  std::string text;
  bool rev{false};          // may be used as an operand in reverse mode
  std::vector<int> vars;    // V: variables of the elements
  int par0{-1};             // T/P: first parameter index of the reference
  std::vector<int> zeros;   // nodes that must stay away from zero
  bool used{false};         // mentioned by another formula
};

struct MProg {
  Choices& ch;
  Info& in;
  sp::Prog S;
  Graph& g;
  std::vector<Ent> es;
  bool naive{false};
  bool inv_ok{true}, has_inv{false};
  int maxel{12};
  bool rev_only{false}, longs{false};
  bool wide{false}; // a few programs use matrices larger than any internal block or reserve
  void widen(int el) {
    if (ch.draw(16) != 15) return;
    wide = true;
    maxel = el;
    in.label("wide");
  }
  MProg(Choices& c, Info& i) : ch{c}, in{i}, S(c, i), g{S.g} { away_from_zero().clear(); }

  void backend(bool nv) {
    naive = nv;
    CoolDiff::GlobalParameters::setCPUHandler(nv ? CoolDiff::GlobalParameters::CPUHandlerType::NAIVE : CoolDiff::GlobalParameters::CPUHandlerType::EIGEN);
  }
  std::string nm(int i) { return std::string(es[i].m.k == E ? "E" : es[i].m.k == V ? "V" : es[i].m.k == T ? "T" : "P") + std::to_string(i); }
  std::string dims(const RM& r) { return std::to_string(r.r) + "x" + std::to_string(r.c); }
  // a matrix of fresh variables, sometimes of variables that exist already
  int new_V(int r, int c, bool fresh = true) {
    Ent e;
    Matrix<Variable>* m = new Matrix<Variable>((size_t)r, (size_t)c);
    e.m = {V, m};
    e.r = RM(&g, r, c);
    std::set<int> used;
    in.desc << "V" << es.size() << "[" << r << "x" << c << "]={";
    for (int k = 0; k < r * c; ++k) {
      int v = -1;
      if (!fresh && !S.v.empty() && ch.draw(3)) {
        int t = ch.draw((uint32_t)S.v.size());
        if (!used.count(t)) v = t;
      }
      if (v >= 0) {
        (*m)[k] = S.hv(v);
        S.va[v].push_back(&(*m)[k]);
        in.desc << "x" << v << " ";
      } else {
        v = (int)S.v.size();
        Type t = S.rnd(1.5);
        (*m)[k] = t;
        S.v.push_back(&(*m)[k]);
        S.va.emplace_back();
        S.vv.push_back(t);
        g.var(v);
        in.desc << "x" << v << "=" << ref::show(ref::up(t)) << " ";
      }
      used.insert(v);
      e.vars.push_back(v);
      e.r.n[k] = g.var(v);
    }
    in.desc << "}; ";
    e.text = "leaf";
    e.rev = fresh;
    es.push_back(e);
    return (int)es.size() - 1;
  }
  int new_T(int r, int c, bool par = false) {
    Ent e;
    e.r = RM(&g, r, c);
    e.par0 = (int)S.pv.size();
    Matrix<Type>* m = nullptr;
    Matrix<Parameter>* q = nullptr;
    if (par) e.m = {P, q = new Matrix<Parameter>((size_t)r, (size_t)c)};
    else e.m = {T, m = new Matrix<Type>((size_t)r, (size_t)c)};
    in.desc << (par ? "P" : "T") << es.size() << "[" << r << "x" << c << "]={";
    for (int k = 0; k < r * c; ++k) {
      Type t = ch.draw(9) == 8 ? (Type)0 : S.rnd(1.5); // structural zeros occur
      if (par) (*q)[k] = t; else (*m)[k] = t;
      S.pv.push_back(t);
      e.r.n[k] = g.par((int)S.pv.size() - 1);
      in.desc << ref::show(ref::up(t)) << " ";
    }
    in.desc << "}; ";
    e.text = "leaf";
    e.rev = !par;
    es.push_back(e);
    return (int)es.size() - 1;
  }
  // elementwise matrix of scalar expressions
  int new_L(int r, int c) {
    Ent e;
    Matrix<Expression>* m = new Matrix<Expression>((size_t)r, (size_t)c);
    e.m = {E, m};
    e.r = RM(&g, r, c);
    std::ostringstream os;
    os << "elements{";
    if (S.v.empty()) S.add_var();
    if (S.es.empty()) S.st_binary();
    for (int k = 0; k < r * c; ++k) {
      switch (ch.pick({4, 2, 2, 1})) {
      case 0: { int i = ch.draw((uint32_t)S.es.size()); (*m)[k] = *S.es[i].e; e.r.n[k] = S.es[i].node; os << "e" << i << " "; break; }
      case 1: { int i = ch.draw((uint32_t)S.v.size()); (*m)[k] = S.hv(i) * S.hv(i); e.r.n[k] = g.bin(ref::MUL, g.var(i), g.var(i)); os << "x" << i << "^2 "; break; }
      case 2: { int i = ch.draw((uint32_t)S.v.size()), j = ch.draw((uint32_t)S.es.size()); (*m)[k] = S.hv(i) + *S.es[j].e; e.r.n[k] = g.bin(ref::ADD, g.var(i), S.es[j].node); os << "x" << i << "+e" << j << " "; break; }
      default: e.r.n[k] = g.zero_; os << "- "; // never assigned: zero
      }
    }
    os << "}";
    e.text = os.str();
    note(e, "elements");
    es.push_back(e);
    return (int)es.size() - 1;
  }
  void note(const Ent& e, const std::string& label) {
    in.desc << (e.m.k == E ? "E" : "?") << es.size() << "[" << dims(e.r) << "]=" << e.text << "; ";
    in.label(label);
  }
  // pool entry of the given shape (-1 = any), or a new leaf
  int need(int r, int c, bool fresh_leaf_pct = true) {
    std::vector<int> ok;
    for (size_t i = 0; i < es.size(); ++i)
      if ((r < 0 || es[i].r.r == r) && (c < 0 || es[i].r.c == c) && (!rev_only || es[i].rev)) ok.push_back((int)i);
    if (!ok.empty() && ch.draw(5)) {
      size_t n = ok.size();
      size_t back = ch.draw(3) ? std::min<size_t>(ch.draw(3), n - 1) : ch.draw((uint32_t)n);
      int t = ok[n - 1 - back];
      es[t].used = true;
      return t;
    }
    const bool fr = r < 0, fc = c < 0;
    if (fr) r = dim();
    if (fc) c = dim();
    while (wide && r * c > maxel && ((fr && r > 1) || (fc && c > 1))) { if (fr && r > 1) r = (r + 1) / 2; if (fc && c > 1) c = (c + 1) / 2; }
    int t = leaf(r, c);
    es[t].used = true;
    return t;
  }
  int dim() {
    if (wide && ch.draw(5) < 3) return 5 + (int)(ch.draw(4) ? ch.draw(7) : ch.draw(36));
    return 1 + (int)ch.pick({2, 4, 3, 1});
  }
  int new_Vd() { // a matrix of variables of any shape
    int r = dim(), c = dim();
    while (wide && r * c > maxel) { r = (r + 1) / 2; c = (c + 1) / 2; }
    return new_V(r, c);
  }
  int leaf(int r, int c) {
    switch (ch.pick({5, 3, 1, rev_only ? 0u : 2u})) {
    case 0: return new_V(r, c);
    case 1: return new_T(r, c);
    case 2: return rev_only ? new_T(r, c) : new_T(r, c, true);
    default: return new_L(r, c);
    }
  }
  // ---- checking that a formula is worth building here
  bool sane(const RM& r, long double lim = 50, long double dlim = 1e4L) {
    if (wide) lim = std::max(lim, 1000.0L);
    if (g.n.size() > 400000) return false;
    auto q = S.point();
    ref::Evaluator e(g, q);
    for (int k : r.n) { LT t = e.get(k); if (!ref::finite(t) || ref::mag(t) > lim) return false; }
    for (int z : away_from_zero()) if (!(ref::mag(e.get(z)) > 0.05L)) return false;
    // every intermediate has a usable local derivative
    for (int k : reach({&r})) { LT t = e.get(g.diff(k, ref::ALL)); if (!ref::finite(t) || ref::mag(t) > dlim) return false; }
    return true;
  }
  std::vector<int> reach(const std::vector<const RM*>& roots) {
    std::vector<char> seen(g.n.size(), 0);
    std::vector<int> st, out;
    for (auto* r : roots) for (int k : r->n) if (!seen[k]) { seen[k] = 1; st.push_back(k); }
    while (!st.empty()) {
      int i = st.back();
      st.pop_back();
      out.push_back(i);
      const ref::Node& k = g.n[i];
      if (k.op == ref::CONST || k.op == ref::VAR || k.op == ref::PAR) continue;
      if (!seen[k.a]) { seen[k.a] = 1; st.push_back(k.a); }
      if (k.op >= ref::ADD && k.op <= ref::POW && !seen[k.b]) { seen[k.b] = 1; st.push_back(k.b); }
    }
    std::sort(out.begin(), out.end());
    return out;
  }
  int push(Matrix<Expression>* m, const RM& r, const std::string& text, const std::string& label, bool rev = false) {
    Ent e;
    e.m = {E, m};
    e.r = r;
    e.text = text;
    e.rev = rev;
    e.zeros = away_from_zero();
    has_inv |= !e.zeros.empty();
    note(e, label);
    es.push_back(e);
    return (int)es.size() - 1;
  }
  int pick_V() {
    std::vector<int> v;
    for (size_t i = 0; i < es.size(); ++i) if (es[i].m.k == V) v.push_back((int)i);
    return v.empty() ? new_Vd() : v[ch.draw((uint32_t)v.size())];
  }
  int style() { return ch.draw(STYLES); }
  bool st_bin() {
    int op = (int)ch.pick({4, 3, 5, 3, 2, (unsigned)(inv_ok ? 1 : 0), 1, 1});
    int a = need(-1, -1), b;
    const int ar = es[a].r.r, ac = es[a].r.c;
    if (op == B_MUL) b = need(ac, -1);
    else if (op == B_MOD) b = need(ac, ac);
    else if (op == B_CATV) b = need(-1, ac);
    else if (op == B_CATH) b = need(ar, -1);
    else b = need(ar, ac);
    if (op != B_MOD && ch.flip() && op != B_MUL && op != B_CATV && op != B_CATH) std::swap(a, b);
    if (op == B_MOD && (ac > 3 || ar * ac > maxel)) op = B_ADD, b = need(ar, ac);
    if (!pair_ok(es[a].m.k, es[b].m.k)) return false;
    if (op > B_HAD && (es[a].m.k == P || es[b].m.k == P)) return false;
    auto keepz = away_from_zero();
    RM r;
    try { r = ref_mbin(op, es[a].r, es[b].r); } catch (Shape_error&) { away_from_zero() = keepz; return false; }
    if (r.r * r.c > maxel || !sane(r) || (op == B_DIV && !div_ok(es[a].r, es[b].r))) {
      away_from_zero() = keepz;
      if (op != B_DIV) return false;
      op = B_SUB;
      r = ref_mbin(op, es[a].r, es[b].r);
      if (!sane(r)) { away_from_zero() = keepz; return false; }
    }
    int st = style();
    Matrix<Expression>* m = op <= B_HAD ? lib_mbin_a(op, es[a].m, es[b].m, st) : lib_mbin_b(op, es[a].m, es[b].m, st);
    push(m, r, nm(a) + bin_name(op) + nm(b), std::string("m:") + bin_name(op));
    return true;
  }
  bool div_ok(const RM&, const RM&) { return true; }
  bool st_mix(int given = -1) {
    int a = given >= 0 ? given : need(-1, -1);
    if (es[a].m.k == P) return false;
    int op = ch.draw(M_COUNT);
    Sc s{};
    int node;
    std::string t;
    switch (ch.pick({2, 2, (unsigned)(S.p.empty() ? 0 : 1), (unsigned)(S.es.empty() ? 0 : 2)})) {
    case 0: s.k = Sc::N; s.n = S.rnd(); node = g.cst(ref::up(s.n)); t = ref::show(ref::up(s.n)); break;
    case 1: { if (S.v.empty()) S.add_var(); int i = ch.draw((uint32_t)S.v.size()); if (given >= 0) for (auto& e : es) if (std::count(e.vars.begin(), e.vars.end(), i)) return false; s.k = Sc::V; s.v = &S.hv(i); node = g.var(i); t = "x" + std::to_string(i); break; }
    case 2: { int i = ch.draw((uint32_t)S.p.size()); s.k = Sc::P; s.p = &S.hp(i); node = g.par(i); t = "p" + std::to_string(i); break; }
    default: { int i = ch.draw((uint32_t)S.es.size()); s.k = Sc::E; s.e = S.es[i].e; node = S.es[i].node; t = "e" + std::to_string(i); }
    }
    auto keepz = away_from_zero();
    RM r = ref_mix(op, node, es[a].r);
    if (!sane(r)) { op = M_ADDL; r = ref_mix(op, node, es[a].r); if (!sane(r)) { away_from_zero() = keepz; return false; } }
    Matrix<Expression>* m = lib_mix(op, s, es[a].m, style());
    const char* kn[] = {"number", "variable", "parameter", "expression"};
    push(m, r, std::string(mix_name(op)) + "(" + t + "," + nm(a) + ")", std::string("mix:") + mix_name(op) + ":" + kn[s.k], given >= 0 && es[a].rev);
    return true;
  }
  std::vector<int> un_pool; // restrict unary operations
  bool st_un() {
    int op = un_pool.empty() ? (int)ch.draw(U_COUNT) : un_pool[ch.draw((uint32_t)un_pool.size())];
#ifdef USE_COMPLEX_MATH
    if (op == U_RELU || op == U_LRELU || op == U_ABS) op = U_SIN;
#endif
    if (!inv_ok && (op == U_INV || op == U_DET)) op = U_T;
    int a;
    if (op == U_INV || op == U_DET || op == U_TRACE || (op >= U_POW0 && op <= U_MLOG) || op >= U_POWH) {
      int d = 1 + (int)ch.pick({1, 4, 2});
      if (op >= U_MEXP && d == 3) d = 2;
      if (wide && (op == U_INV || op == U_DET) && ch.flip()) d = 4 + (int)ch.draw(2);
      if (wide && op == U_TRACE) { d = dim(); while (d * d > maxel) --d; }
      if (wide && op >= U_POW0 && op <= U_POW2) d = 1 + (int)ch.draw(6);
      a = need(d, d);
    }
    else if (op == U_BRO) a = need(1, 1);
    else if (op == U_BROR) a = need(1, -1);
    else if (op == U_BROC) a = need(-1, 1);
    else a = need(-1, -1);
    const bool lg = op >= U_POWH;
    if (op >= U_MEXPD && !ch.draw(4)) op = U_MEXP22;
    if (op >= U_SOFT && (es[a].m.k == T || es[a].m.k == P)) op = U_T;
    size_t k = 1 + ch.draw(3);
    if (wide && ch.flip()) k = 4 + ch.draw(20);
    if (op >= U_POWH && op <= U_LOGH) k = ch.draw(8);
    auto keepz = away_from_zero();
    RM r;
    auto tr = [&] { try { r = ref_mun(op, es[a].r, k); } catch (Shape_error&) { return false; } return r.r * r.c <= maxel && (op >= U_POWH ? sane(r, 1e7L, 1e25L) : sane(r)); };
    if (!tr()) {
      away_from_zero() = keepz;
      op = es[a].r.r == es[a].r.c ? U_TRACE : U_T;
      if (!tr()) { away_from_zero() = keepz; return false; }
    }
    if (op >= U_POWH) { longs = true; g.lim = 1e25L; }
    int st = style();
    Matrix<Expression>* m = op <= U_ABS ? lib_mun_a(op, es[a].m, k, st) : op <= U_BROC ? lib_mun_b(op, es[a].m, k, st) : op >= U_POWH && op <= U_LOGH ? lib_mhigh(op, es[a].m, k, st) : op == U_MLOGD ? lib_mlog_long(es[a].m, st) : op >= U_MEXPD ? lib_mexp_long(op, es[a].m, st) : lib_mun_c(op, es[a].m, k, st);
    push(m, r, std::string(un_name(op)) + "(" + nm(a) + (op >= U_BRO && op <= U_BROC ? "," + std::to_string(k) : op == U_POWH ? ",power " + std::to_string(pow_len[k]) : op == U_EXPH ? ",terms " + std::to_string(exp_len[k]) : op == U_LOGH ? ",terms " + std::to_string(log_len[k]) : "") + ")", std::string("m:") + un_name(op));
    return true;
  }
  bool st_conv() {
    int a = need(-1, -1);
    int ar = es[a].r.r, ac = es[a].r.c;
    size_t px = ch.draw(3), py = ch.draw(3), sx = 1 + ch.draw(3), sy = 1 + ch.draw(3);
    const int kmax = wide ? 9 : 3;
    int kr = 1 + (int)ch.draw((uint32_t)std::min<int>(kmax, ar + 2 * (int)px)), kc = 1 + (int)ch.draw((uint32_t)std::min<int>(kmax, ac + 2 * (int)py));
    int b = need(kr, kc);
    if (es[a].m.k == P || es[b].m.k == P || (es[a].m.k == T && es[b].m.k == T)) return false;
    RM r;
    try { r = conv(es[a].r, es[b].r, sx, sy, px, py); } catch (Shape_error&) { return false; }
    if (r.r * r.c > (wide ? maxel : 25) || !sane(r)) return false;
    Matrix<Expression>* m = lib_conv(es[a].m, es[b].m, sx, sy, px, py, style());
    std::ostringstream os;
    os << "conv(" << nm(a) << "," << nm(b) << ",stride " << sx << "," << sy << ",pad " << px << "," << py << ")";
    push(m, r, os.str(), "m:conv");
    return true;
  }
  // m = f(m, operand) for an expression nothing else refers to
  // (in_rev: only steps that keep a 1x1 expression usable in reverse mode)
  bool extend(int t, std::string& text, bool in_rev = false) {
    Matrix<Expression>& m = es[t].m.e();
    const int r = es[t].r.r, c = es[t].r.c;
    const bool keep_used = es[t].used;
    es[t].used = true;
    auto keepz = away_from_zero();
    RM nr;
    bool ok = false;
    auto fits = [&](const std::function<RM()>& f) {
      try { nr = f(); } catch (Shape_error&) { return false; }
      return nr.r * nr.c <= maxel && sane(nr);
    };
    if (ch.draw(3)) {
      int f = (int)ch.draw(X_COUNT);
      if (in_rev && (f == X_CATV || f == X_CATH)) f = X_ADD;
      int wr = f == X_MUL ? c : f == X_RMUL || f == X_MULT ? -1 : f == X_CATV ? -1 : r, wc = f == X_MUL ? -1 : f == X_RMUL ? r : f == X_MULT ? c : f == X_CATH ? -1 : c;
      if (f == X_MULT) wr = r; // m (r x c) times the transpose of an r x c matrix: square results only
      if (f == X_MULT && r != c) f = X_ADD;
      if (in_rev) { wr = r; wc = c; }
      int b = need(wr, wc);
      if (b == t || es[b].m.k == P) { es[t].used = keep_used; return false; }
      const RM x = es[b].r, M = es[t].r;
      auto model = [&](int f) {
        return fits([&]() -> RM {
          switch (f) {
          case X_ADD: return M + x;
          case X_RSUB: return x - M;
          case X_HAD: return M ^ x;
          case X_AXPY: return M + (LT)0.5L * x;
          case X_MUL: return M * x;
          case X_RMUL: return x * M;
          case X_SINADD: return SinM(M) + x;
          case X_HADSUB: return x - (M ^ x);
          case X_DIVEXP: return M / ExpM(x);
          case X_CATV: return mp::concat<ConcatAxis::VERTICAL>(M, x);
          case X_CATH: return mp::concat<ConcatAxis::HORIZONTAL>(x, M);
          default: return x + M * transpose(x);
          }
        });
      };
      ok = model(f);
      if (!ok && x.r == r && x.c == c) { f = X_RSUB; ok = model(f); }
      if (ok) {
        lib_step(f, m, es[b].m);
        static const char* nmx[] = {"M+it", "it-M", "M^it", "M+0.5*it", "M*it", "it*M", "SinM(M)+it", "it-(M^it)", "M/ExpM(it)", "concat V(M,it)", "concat H(it,M)", "it+M*it'"};
        text += std::string(", M=") + nmx[f] + " it=" + nm(b);
        in.label(std::string("ext:") + nmx[f]);
      }
    } else {
      int f = (int)ch.draw(Y_COUNT), v = 0;
      if (f == Y_VAR || f == Y_VARADD) {
        if (S.v.empty()) S.add_var();
        v = (int)ch.draw((uint32_t)S.v.size());
        if (in_rev) for (auto& e : es) if (std::count(e.vars.begin(), e.vars.end(), v)) f = Y_HALF;
      }
      if ((f == Y_SQ || f == Y_TRACE) && r != c) f = Y_GRAM;
      const RM M = es[t].r;
      auto model = [&](int f) {
        return fits([&]() -> RM {
          switch (f) {
          case Y_SIN: return SinM(M);
          case Y_HALF: return (LT)0.5L * M;
          case Y_T: return transpose(M);
          case Y_TWO: return (LT)2 - M;
          case Y_DBL: return M + M;
          case Y_LOGISTIC: return M - (LT)0.25L * (M ^ M);
          case Y_SQ: return M * M;
          case Y_GRAM: return transpose(M) * M;
          case Y_VEC: return mp::vec(M);
          case Y_SUM: return mp::Sigma(M);
          case Y_TRACE: return mp::trace(M);
          case Y_VAR: return R{&g, g.var(v)} * M;
          case Y_VARADD: return M + R{&g, g.var(v)};
          case Y_TANH: return TanhM(M);
          default: return ExpM((LT)(-1) * M) ^ M;
          }
        });
      };
      ok = model(f);
      if (!ok) { f = Y_SIN; ok = model(f); }
      if (ok) {
        lib_step1(f, m, f == Y_VAR || f == Y_VARADD ? &S.hv(v) : nullptr);
        static const char* nmy[] = {"SinM(M)", "0.5*M", "M'", "2-M", "M+M", "M-0.25*(M^M)", "M*M", "M'*M", "vec(M)", "Sigma(M)", "trace(M)", "x*M", "M+x", "TanhM(M)", "ExpM(-1*M)^M"};
        text += std::string(", M=") + nmy[f] + (f == Y_VAR || f == Y_VARADD ? " x=x" + std::to_string(v) : "");
        in.label(std::string("ext:") + nmy[f]);
      }
    }
    es[t].used = keep_used;
    if (!ok) { away_from_zero() = keepz; return false; }
    es[t].r = nr;
    es[t].rev = es[t].rev && in_rev;
    es[t].zeros = away_from_zero();
    has_inv |= !es[t].zeros.empty();
    return true;
  }
  // statements on named 1x1 formulas that stay usable in reverse mode
  bool st_rev() {
    std::vector<int> c;
    for (size_t i = 0; i < es.size(); ++i) if (es[i].m.k == E && es[i].rev && es[i].r.r * es[i].r.c == 1) c.push_back((int)i);
    if (c.empty()) return false;
    int a = ch.draw(3) ? c.back() : c[ch.draw((uint32_t)c.size())];
    const bool ro = rev_only;
    rev_only = true;
    auto keepz = away_from_zero();
    bool ok = false;
    switch (ch.pick({5, 3, 3, 3, 1})) {
    case 0: {
      int op = (int)ch.pick({4, 3, 4, 3, 2, (unsigned)(inv_ok ? 1 : 0)}), b = ch.draw(8) ? need(1, 1) : a;
      if (ch.flip()) std::swap(a, b);
      if (!pair_ok(es[a].m.k, es[b].m.k)) break;
      RM r = ref_mbin(op, es[a].r, es[b].r);
      if (!sane(r)) { away_from_zero() = keepz; op = B_SUB; r = ref_mbin(op, es[a].r, es[b].r); if (!sane(r)) break; }
      es[a].used = es[b].used = true;
      int st = style();
      push(op <= B_HAD ? lib_mbin_a(op, es[a].m, es[b].m, st) : lib_mbin_b(op, es[a].m, es[b].m, st), r, nm(a) + bin_name(op) + nm(b), std::string("rev:") + bin_name(op), true);
      ok = true;
      break;
    }
    case 1: {
      static const int ops[] = {U_SIN, U_COS, U_EXP, U_LOG, U_SQRT, U_TANH, U_SIGM, U_T, U_DET, U_INV, U_TRACE, U_VEC, U_SIG, U_SIGR, U_SIGC, U_FROB, U_POW2, U_POW3, U_CUSTOM, U_RECIP, U_RELU, U_LRELU, U_ABS};
      int op = ops[ch.draw(23)];
#ifdef USE_COMPLEX_MATH
      if (op == U_RELU || op == U_LRELU || op == U_ABS) op = U_SIN;
#endif
      if (!inv_ok && (op == U_INV || op == U_DET)) op = U_T;
      RM r = ref_mun(op, es[a].r, 1);
      if (!sane(r)) { away_from_zero() = keepz; op = U_SIN; r = ref_mun(op, es[a].r, 1); if (!sane(r)) break; }
      es[a].used = true;
      int st = style();
      push(op <= U_ABS ? lib_mun_a(op, es[a].m, 1, st) : op <= U_BROC ? lib_mun_b(op, es[a].m, 1, st) : lib_mun_c(op, es[a].m, 1, st), r, std::string(un_name(op)) + "(" + nm(a) + ")", std::string("rev:") + un_name(op), true);
      ok = true;
      break;
    }
    case 2: {
      es[a].used = true;
      ok = st_mix(a);
      break;
    }
    case 3: {
      if (es[a].used) break;
      std::string text = "{M=" + es[a].text;
      int n = 1 + (int)ch.draw(3);
      for (int q = 0; q < n; ++q) ok |= extend(a, text, true);
      es[a].text = text + "}";
      if (ok) { say(a); in.label("rev:extended"); }
      break;
    }
    default: ok = st_copy(a);
    }
    rev_only = ro;
    if (!ok) away_from_zero() = keepz;
    return ok;
  }
  void say(int t) { in.desc << nm(t) << "[" << dims(es[t].r) << "]=" << es[t].text << "; "; }
  // accumulate in a loop, starting from a sum, a formula or a matrix of scalar expressions
  bool st_loop() {
    int t;
    std::string text;
    if (ch.draw(4) == 0) { t = new_L(dim(), dim()); text = "{M=" + es[t].text; }
    else {
      int a = need(-1, -1);
      if (es[a].m.k == P) return false;
      int b = need(es[a].r.r, es[a].r.c);
      if (es[b].m.k == P) return false;
      RM r = es[a].r + es[b].r;
      if (!sane(r)) return false;
      text = "{M=" + nm(a) + "+" + nm(b);
      t = push(lib_mbin_a(B_ADD, es[a].m, es[b].m, 0), r, text + " ...", "m:loop");
    }
    int n = 1 + (int)ch.draw(4);
    for (int q = 0; q < n; ++q) extend(t, text);
    es[t].text = text + "}";
    say(t);
    return true;
  }
  // an existing expression nothing else refers to means something else from now on
  bool st_extend() {
    std::vector<int> c;
    for (size_t i = 0; i < es.size(); ++i) if (es[i].m.k == E && !es[i].used) c.push_back((int)i);
    if (c.empty()) return false;
    int t = c[ch.draw((uint32_t)c.size())];
    std::string text = "{M=" + es[t].text;
    if (!extend(t, text)) return false;
    es[t].text = text + "}";
    say(t);
    in.label("m:extended");
    return true;
  }
  bool st_copy(int given = -1) {
    std::vector<int> c;
    for (size_t i = 0; i < es.size(); ++i) if (es[i].m.k == E) c.push_back((int)i);
    if (c.empty()) return false;
    int a = given >= 0 ? given : c[ch.draw((uint32_t)c.size())];
    Matrix<Expression>& src = es[a].m.e();
    Matrix<Expression>* m;
    int how = ch.draw(4);
    if (how == 3) { // onto itself: nothing changes
      src = src;
      in.desc << nm(a) << "=" << nm(a) << "; ";
      in.label("m:self-assigned");
      return true;
    }
    es[a].used = true;
    if (how == 0) m = new Matrix<Expression>(src);
    else if (how == 1) { m = new Matrix<Expression>(); *m = src; }
    else { Matrix<Expression> t(src); m = new Matrix<Expression>(std::move(t)); }
    push(m, es[a].r, std::string(how == 0 ? "copy of " : how == 1 ? "assigned from " : "moved copy of ") + nm(a), "m:copy", given >= 0);
    return true;
  }
  // give an existing matrix expression a new meaning (dimensions may change)
  bool st_reassign() {
    std::vector<int> c;
    for (size_t i = 0; i < es.size(); ++i) if (es[i].m.k == E && !es[i].used) c.push_back((int)i);
    if (c.empty()) return false;
    int t = c[ch.draw((uint32_t)c.size())];
    es[t].used = true; // keep it out of its own new meaning
    int a = need(-1, -1);
    int op = (int)ch.draw(4);
    if (a == t) { es[t].used = false; return false; }
    int b = need(op == B_MUL ? es[a].r.c : es[a].r.r, op == B_MUL ? -1 : es[a].r.c);
    es[t].used = false;
    if (a == t || b == t || es[a].m.k == P || es[b].m.k == P) return false;
    auto keepz = away_from_zero();
    RM r = ref_mbin(op, es[a].r, es[b].r);
    if (r.r * r.c > maxel || !sane(r)) { away_from_zero() = keepz; return false; }
    Matrix<Expression>& m = es[t].m.e();
    lib_assign(op, m, es[a].m, es[b].m);
    es[t].r = r;
    es[t].zeros = away_from_zero();
    es[t].rev = false;
    es[t].text = nm(a) + bin_name(op) + nm(b);
    in.desc << nm(t) << "[" << dims(r) << "]:=" << es[t].text << "; ";
    in.label("m:reassigned");
    return true;
  }
  bool st_shape(bool rev = false);
  void scalars() {
    int np = ch.draw(2), nv = 1 + (int)ch.draw(2), ns = ch.draw(4);
    for (int i = 0; i < np; ++i) S.add_par();
    for (int i = 0; i < nv; ++i) S.add_var();
    for (int i = 0; i < ns; ++i) { if (ch.flip()) S.st_unary(); else S.st_binary(); }
  }
  void start() {
    scalars();
    new_Vd();
    if (ch.flip()) new_Vd();
  }
  unsigned w_bin = 6, w_un = 5, w_mix = 3, w_shape = 4, w_conv = 1, w_loop = 1, w_copy = 1, w_L = 1, w_re = 1;
  void build(int maxstmt) {
    start();
    int n = 1 + (int)ch.draw(maxstmt), made = 0;
    for (int i = 0; i < 3 * n && made < n; ++i) {
      bool ok = false;
      switch (ch.pick({w_bin, w_un, w_mix, mshapes().empty() ? 0 : w_shape, w_conv, w_loop, w_copy, w_L, w_re})) {
      case 0: ok = st_bin(); break;
      case 1: ok = st_un(); break;
      case 2: ok = st_mix(); break;
      case 3: ok = st_shape(); break;
      case 4: ok = st_conv(); break;
      case 5: ok = st_loop(); break;
      case 6: ok = st_copy(); break;
      case 8: ok = ch.flip() ? st_reassign() : st_extend(); break;
      default: new_L(dim(), dim()); ok = true;
      }
      made += ok;
    }
  }
  // ---- changing values
  void set_values(int pct = 40) {
    for (size_t i = 0; i < S.v.size(); ++i) if ((int)ch.draw(100) < pct) S.set_var((int)i);
    for (size_t i = 0; i < S.p.size(); ++i) if ((int)ch.draw(100) < pct) S.set_par((int)i);
    for (auto& e : es)
      if (e.par0 >= 0 && ch.flip())
        for (size_t k = 0; k < e.r.n.size(); ++k) if ((int)ch.draw(100) < pct) {
          Type t = S.rnd(1.5);
          S.pv[e.par0 + k] = t;
          if (e.m.k == T) e.m.t()[k] = t; else e.m.q()[k] = t;
          in.desc << (e.m.k == T ? "T" : "P") << "[" << k << "]:=" << ref::show(ref::up(t)) << "; ";
        }
  }
};

// the point is inside the open domain of everything a formula (and its first derivative) computes
struct MGuard {
  std::vector<int> nodes, zeros;
  int order;
  ref::ld lim;
  MGuard(MProg& P, const RM& r, const std::vector<int>& z, int o) : zeros{z}, order{o}, lim{P.longs ? 1e25L : 1e6L} {
    nodes = P.reach({&r});
    // a matrix operand is computed completely even if only part of it is used
    nodes.insert(nodes.end(), P.g.touched.begin(), P.g.touched.end());
    if (order) { size_t n = nodes.size(); for (size_t k = 0; k < n; ++k) nodes.push_back(P.g.diff(nodes[k], ref::ALL)); }
  }
  bool operator()(ref::Oracle& o) const {
    for (int n : nodes) { auto& e = o.ev[0]; LT v = e.get(n); if (!ref::finite(v) || e.bad[n] || ref::mag(v) > lim) return false; }
    for (int z : zeros) { if (!(ref::mag(o.ev[0].get(z)) > 0.02L)) return false; }
    return !(order && ref::singular_below(o, nodes));
  }
};

// compare a result with the reference, elementwise with a common scale
inline bool expectM(Info& in, const std::string& what, Matrix<Type>& got, int r, int c, const std::vector<int>& nodes, ref::Oracle& o, bool ok) {
  if ((int)got.getNumRows() != r || (int)got.getNumColumns() != c) {
    std::ostringstream os;
    os << what << ": library result is " << got.getNumRows() << "x" << got.getNumColumns() << ", should be " << r << "x" << c;
    throw Fail{os.str()};
  }
  if (!ok) { ++in.skipped; return false; }
  std::vector<ref::Val> w;
  ref::ld scale = 0.01L;
  for (int k : nodes) {
    if (k < 0) { w.emplace_back(); continue; } // not compared
    w.push_back(o.get(k));
    if (!w.back().ok) { ++in.skipped; return false; }
    scale = std::max(scale, w.back().sens);
    scale = std::max(scale, ref::mag(w.back().v));
  }
  ++in.checks;
  for (size_t k = 0; k < w.size(); ++k) {
    if (nodes[k] < 0) continue;
    LT g = ref::up(got[k]);
    if (!(ref::mag(g - w[k].v) <= ref::TOLC * scale)) {
      std::ostringstream os;
      os << what << ": element (" << k / c << "," << k % c << ") is " << ref::show(g) << " but the formula gives " << ref::show(w[k].v) << " (tolerance " << (double)(ref::TOLC * scale) << ")";
      throw Fail{os.str()};
    }
  }
  return true;
}
// d f / d X in the documented layout: block (l,k) is the derivative of f(l,k), laid out like X
// (only: elements of X to differentiate by, empty = all)
inline std::vector<int> jac(Graph& g, const RM& f, int xr, int xc, const std::vector<int>& vars, const std::set<int>& only = {}) {
  std::vector<int> out((size_t)f.r * xr * f.c * xc, -1);
  for (int l = 0; l < f.r; ++l)
    for (int k = 0; k < f.c; ++k)
      for (int i = 0; i < xr; ++i)
        for (int j = 0; j < xc; ++j) if (only.empty() || only.count(i * xc + j)) out[(size_t)(l * xr + i) * (f.c * xc) + (k * xc + j)] = g.diff(f.at(l, k), vars[i * xc + j]);
  return out;
}

// ---------------------------------------------------------------- contexts for nested formulas
struct Pick { int ent; };
struct RefCtx {
  MProg& P;
  std::map<std::string, int> chosen;
  bool rev;
  std::vector<int> scal; // indices picked for scalar slots
  RefCtx(MProg& p, bool r) : P{p}, rev{r} {}
  static std::string key(char k, size_t r, size_t c, int s) { return std::string(1, k) + std::to_string(r) + "_" + std::to_string(c) + "_" + std::to_string(s); }
  int pick(Kind k, size_t r, size_t c, int slot) {
    std::string id = key("EVTP"[k], r, c, slot);
    auto it = chosen.find(id);
    if (it != chosen.end()) return it->second;
    std::vector<int> ok;
    for (size_t i = 0; i < P.es.size(); ++i)
      if (P.es[i].m.k == k && P.es[i].r.r == (int)r && P.es[i].r.c == (int)c && (!rev || P.es[i].rev)) ok.push_back((int)i);
    int e;
    if (!ok.empty() && P.ch.draw(4)) { e = ok[P.ch.draw((uint32_t)ok.size())]; P.es[e].used = true; }
    else if (k == V) e = P.new_V((int)r, (int)c, rev || P.ch.draw(4) != 0);
    else if (k == T) e = P.new_T((int)r, (int)c);
    else if (k == P_) e = P.new_T((int)r, (int)c, true);
    else if (rev) { // a 1x1 expression usable in reverse mode
      throw Shape_error{};
    } else e = P.new_L((int)r, (int)c);
    P.es[e].used = true;
    chosen[id] = e;
    return e;
  }
  static constexpr Kind P_ = Kind::P;
  RM V_(size_t r, size_t c, int s) { return P.es[pick(V, r, c, s)].r; }
  RM T_(size_t r, size_t c, int s) { return P.es[pick(T, r, c, s)].r; }
  RM E_(size_t r, size_t c, int s) { return P.es[pick(E, r, c, s)].r; }
  RM Eye(size_t n) { return eye(&P.g, (int)n); }
  RM Ones(size_t r, size_t c) { return full(&P.g, (int)r, (int)c, LT(1)); }
  LT num(double d) { return LT((ref::ld)(Real)d); }
  int sc(char k, int slot, size_t n) {
    std::string id = key(k, 0, 0, slot);
    auto it = chosen.find(id);
    if (it != chosen.end()) return it->second;
    return chosen[id] = (int)P.ch.draw((uint32_t)n);
  }
  R s(int slot) {
    std::string id = key('s', 0, 0, slot);
    if (!chosen.count(id)) {
      if (rev) { // only free-standing variables: an element of X is not a direct occurrence of X
        std::vector<int> ok;
        std::set<int> used;
        for (auto& e : P.es) used.insert(e.vars.begin(), e.vars.end());
        for (size_t i = 0; i < P.S.v.size(); ++i) if (!used.count((int)i)) ok.push_back((int)i);
        if (ok.empty()) throw Shape_error{};
        chosen[id] = ok[P.ch.draw((uint32_t)ok.size())];
      } else chosen[id] = (int)P.ch.draw((uint32_t)P.S.v.size());
    }
    return R{&P.g, P.g.var(chosen[id])};
  }
  R p(int slot) { if (P.S.p.empty()) throw Shape_error{}; return R{&P.g, P.g.par(sc('p', slot, P.S.p.size()))}; }
  R e(int slot) { if (P.S.es.empty()) throw Shape_error{}; return R{&P.g, P.S.es[sc('e', slot, P.S.es.size())].node}; }
};
struct LibCtx {
  RefCtx& c;
  LibCtx(RefCtx& r) : c{r} {}
  Ent& at(Kind k, size_t r, size_t cc, int s) { return c.P.es[c.chosen.at(RefCtx::key("EVTP"[k], r, cc, s))]; }
  Matrix<Variable>& V_(size_t r, size_t cc, int s) { return at(V, r, cc, s).m.v(); }
  Matrix<Type>& T_(size_t r, size_t cc, int s) { return at(T, r, cc, s).m.t(); }
  Matrix<Expression>& E_(size_t r, size_t cc, int s) { return at(E, r, cc, s).m.e(); }
  const Matrix<Type>& Eye(size_t n) { return CoolDiff::TensorR2::MatrixBasics::EyeRef("CPUMemoryStrategy", n); }
  const Matrix<Type>& Ones(size_t r, size_t cc) { return CoolDiff::TensorR2::MatrixBasics::OnesRef("CPUMemoryStrategy", r, cc); }
  Type num(double d) { return (Type)(Real)d; }
  Variable& s(int slot) { return c.P.S.hv(c.chosen.at(RefCtx::key('s', 0, 0, slot))); }
  Parameter& p(int slot) { return c.P.S.hp(c.chosen.at(RefCtx::key('p', 0, 0, slot))); }
  Expression& e(int slot) { return *c.P.S.es[c.chosen.at(RefCtx::key('e', 0, 0, slot))].e; }
};
inline bool MProg::st_shape(bool rev) {
  std::vector<const MShape*> ok;
  for (auto& kv : mshapes()) if ((!rev || kv.second.rev) && (inv_ok || !kv.second.inv)) ok.push_back(&kv.second);
  if (ok.empty()) return false;
  const MShape& sh = *ok[ch.draw((uint32_t)ok.size())];
  size_t m = 1 + ch.pick({1, 4, 3}), n = 1 + ch.pick({1, 4, 3});
  if (wide) { m += ch.draw(5); n += ch.draw(5); }
  auto keepz = away_from_zero();
  RefCtx rc(*this, rev);
  RM r;
  try { r = sh.model(rc, m, n); } catch (Shape_error&) { away_from_zero() = keepz; return false; }
  if (r.r * r.c > maxel || !sane(r)) { away_from_zero() = keepz; return false; }
  LibCtx lc(rc);
  Matrix<Expression>* x = sh.lib(lc, m, n, rev ? 0 : style());
  std::ostringstream os;
  os << "[" << sh.text << " | m=" << m << " n=" << n;
  for (auto& kv : rc.chosen) os << " " << kv.first << "->" << (isupper(kv.first[0]) ? nm(kv.second) : (kv.first[0] == 's' ? "x" : std::string(1, kv.first[0])) + std::to_string(kv.second));
  os << "]";
  push(x, r, os.str(), "m:shape", rev && r.r == 1 && r.c == 1);
  return true;
}
} // namespace mp
