// Random scalar programs built against the library and against the reference at once.
#pragma once
#include "CommonFunctions.hpp"
#include "ref.hpp"

namespace sp {
using pbt::Choices;
using pbt::Discard;
using pbt::Fail;
using pbt::Info;
using ref::LT;

struct Shape {
  int id;
  const char* text;
  Expression& (*lib)(Variable&, Variable&, Variable&, Parameter&, Expression&, Expression&);
  int (*model)(ref::R, ref::R, ref::R, ref::R, ref::R, ref::R);
  // the same formula handed to the API without naming it first; mode 0 Eval, 1 DevalF, 2 Eval of SymDiff
  Type (*direct)(Variable&, Variable&, Variable&, Parameter&, Expression&, Expression&, int, Variable&);
};
inline std::map<int, Shape>& shapes() {
  static std::map<int, Shape> s;
  return s;
}
struct ShapeReg {
  ShapeReg(int id, const char* t, decltype(Shape::lib) l, decltype(Shape::model) m, decltype(Shape::direct) d) { shapes()[id] = {id, t, l, m, d}; }
};

inline Type down(const LT& v) {
#if defined(USE_COMPLEX_MATH)
  return Type((Real)v.real(), (Real)v.imag());
#else
  return (Type)v;
#endif
}

// An operand of a library operation
struct Opd {
  enum Kind { V, P, E, N } k;
  int i;
  Type num;
  int node;
};

// dynamic (run time chosen) library operations; implemented in scalar_ops_*.cpp
Expression& lib_unary(int op, Variable*, Parameter*, Expression*);
Expression& lib_binary(int op, const Opd&, const Opd&, Variable*, Variable*, Parameter*, Parameter*, Expression*, Expression*);
// e = e OP operand (direct self reference), operand x
void lib_rec(int form, Expression& e, Variable* v, Parameter* p, Expression* o, Type num);
int ref_rec(ref::Graph& g, int form, int e, int operand, LT num);
const char* rec_text(int form);
constexpr int REC_FORMS = 16, REC_MORE = 38;
void lib_rec_more0(int form, Expression& e, Variable* v, Parameter* p, Expression* o);
void lib_rec_more1(int form, Expression& e, Variable* v, Parameter* p, Expression* o);
int ref_rec_more(ref::Graph& g, int form, int e, int operand);
const char* rec_text_more(int form);
// user-defined (custom) operators composed with built-in ones (scalarc_*.cpp, linked where needed)
constexpr int CUSTOM_UN = 9, CUSTOM_BIN = 4, CUSTOM_FORMS = 4, LIT_KINDS = 8;
inline bool custom_un_ok(int op) {
#ifdef USE_COMPLEX_MATH
  return op != 8;
#else
  return true;
#endif
}
struct Extra {
  Expression& (*lib_custom1)(int op, int form, Variable* v, Parameter* p, Expression* e, Variable& w);
  int (*ref_custom1)(ref::Graph& g, int op, int form, int a, int w);
  std::string (*custom1_text)(int op, int form);
  Expression& (*lib_custom2)(int op, const Opd&, const Opd&, Variable*, Variable*, Parameter*, Parameter*, Expression*, Expression*, int form, Variable& w);
  int (*ref_custom2)(ref::Graph& g, int op, int form, int a, int b, int w);
  std::string (*custom2_text)(int op, int form);
  // built-in binary operators with literals of every arithmetic type
  const char* (*lit_name)(int kind);
  Expression& (*lib_literal)(int op, int kind, bool left, int n, Variable*, Parameter*, Expression*);
  LT (*lit_value)(int kind, int n);
};
inline Extra& X() { static Extra x{}; return x; }

// formulas that use the operands of one operation repeatedly (scalar_share*.cpp, linked where needed)
struct ShareFns {
  Expression* (*un)(int op, int form, Opd::Kind, Opd::Kind, Variable*, Expression*, Variable*, Expression*);
  int (*un_ref)(int op, int form, ref::R, ref::R);
  Expression* (*bin)(int op, int form, Opd::Kind, Opd::Kind, Variable*, Expression*, Variable*, Expression*);
  int (*bin_ref)(int op, int form, ref::R, ref::R);
};
inline ShareFns& share() { static ShareFns s{}; return s; }

struct Prog {
  ref::Graph g;
  std::vector<Variable*> v;
  std::vector<Parameter*> p;
  std::vector<Type> vv, pv;
  struct Ex {
    Expression* e;
    int node;
    std::string text;
    int size;
    bool used = false; // some other formula refers to it
  };
  std::vector<Ex> es;
  // other handles (copies, moved objects) of the same variable / parameter
  std::vector<std::vector<Variable*>> va;
  std::vector<std::vector<Parameter*>> pa;
  struct Use { const Shape* s; int a, b, c, q, e, f, node; };
  std::vector<Use> uses; // shape statements, for direct use of the template
  Choices& ch;
  Info& in;
  Prog(Choices& c, Info& i) : ch{c}, in{i} {}

  Type rnd(double lim = 2.0) {
#if defined(USE_COMPLEX_MATH)
    double re = ch.real(lim);
    double im = ch.draw(3) == 0 ? 0.0 : ch.real(lim * 0.6);
    return Type((Real)re, (Real)im);
#else
    return (Type)ch.real(lim);
#endif
  }
  void add_var() {
    Type t = rnd();
    Variable* x;
    if (ch.draw(2) == 0) x = &Variable::VariableFactory::CreateVariable(t);
    else { x = new Variable(); *x = t; }
    v.push_back(x);
    va.emplace_back();
    vv.push_back(t);
    g.var((int)v.size() - 1);
    in.desc << "x" << v.size() - 1 << "=" << ref::show(ref::up(t)) << "; ";
  }
  void add_par() {
    Type t = rnd();
    Parameter* x = ch.draw(2) == 0 ? &Parameter::ParameterFactory::CreateParameter(t) : new Parameter(t);
    p.push_back(x);
    pa.emplace_back();
    pv.push_back(t);
    g.par((int)p.size() - 1);
    in.desc << "p" << p.size() - 1 << "=" << ref::show(ref::up(t)) << "; ";
  }
  Variable& hv(int i) { return va[i].empty() ? *v[i] : *(ch.flip() ? v[i] : va[i][ch.draw((uint32_t)va[i].size())]); }
  Parameter& hp(int i) { return pa[i].empty() ? *p[i] : *(ch.flip() ? p[i] : pa[i][ch.draw((uint32_t)pa[i].size())]); }
  // further handles of existing variables and parameters, made by every kind of copy and move
  void add_handles() {
    int n = 1 + ch.draw(3);
    for (int q = 0; q < n; ++q) {
      if (!p.empty() && ch.draw(3) == 0) {
        int i = ch.draw((uint32_t)p.size());
        int how = ch.draw(4);
        in.desc << "p" << i << " gets handle by " << (how == 0 ? "copy" : how == 1 ? "assignment" : how == 2 ? "move" : "vector growth") << "; ";
        Parameter& src = hp(i);
        if (how == 0) pa[i].push_back(new Parameter(src));
        else if (how == 1) { Parameter* z = new Parameter((Type)0.125); *z = src; pa[i].push_back(z); }
        else if (how == 2) { Parameter t(src); pa[i].push_back(new Parameter(std::move(t))); }
        else { auto* vec = new std::vector<Parameter>(); for (int k = 0; k < 5; ++k) vec->push_back(src); pa[i].push_back(&(*vec)[ch.draw(5)]); }
      } else {
        int i = ch.draw((uint32_t)v.size());
        int how = ch.draw(5);
        in.desc << "x" << i << " gets handle by " << (how == 0 ? "copy" : how == 1 ? "assignment" : how == 2 ? "move" : how == 3 ? "vector growth" : "move assignment") << "; ";
        Variable& src = hv(i);
        if (how == 0) va[i].push_back(new Variable(src));
        else if (how == 1) { Variable* z = new Variable((Type)0.125); *z = src; va[i].push_back(z); }
        else if (how == 2) { Variable t(src); va[i].push_back(new Variable(std::move(t))); }
        else if (how == 3) { auto* vec = new std::vector<Variable>(); for (int k = 0; k < 5; ++k) vec->push_back(src); va[i].push_back(&(*vec)[ch.draw(5)]); }
        else { Variable* z = new Variable((Type)0.125); Variable t(src); *z = std::move(t); va[i].push_back(z); }
      }
    }
  }
  ref::Point point() const {
    ref::Point q;
    for (auto& t : vv) q.v.push_back(ref::up(t));
    for (auto& t : pv) q.p.push_back(ref::up(t));
    return q;
  }
  void set_var(int i) {
    vv[i] = rnd();
    hv(i) = vv[i];
    in.desc << "x" << i << ":=" << ref::show(ref::up(vv[i])) << "; ";
  }
  void set_par(int i) {
    pv[i] = rnd();
    hp(i) = pv[i];
    in.desc << "p" << i << ":=" << ref::show(ref::up(pv[i])) << "; ";
  }
  LT now(int node) {
    auto q = point();
    ref::Evaluator e(g, q);
    return e.get(node);
  }
  Opd operand(bool number_ok, bool expr_bias = true) {
    Opd o{};
    size_t k = ch.pick({4, (unsigned)(es.empty() ? 0 : (expr_bias ? 6 : 3)), (unsigned)(p.empty() ? 0 : 1), (unsigned)(number_ok ? 2 : 0)});
    if (k == 0) { o.k = Opd::V; o.i = ch.draw((uint32_t)v.size()); o.node = g.var(o.i); }
    else if (k == 1) {
      // prefer recent expressions
      size_t n = es.size();
      size_t back = ch.draw(3) ? std::min<size_t>(ch.draw(3), n - 1) : ch.draw((uint32_t)n);
      o.k = Opd::E; o.i = (int)(n - 1 - back); o.node = es[o.i].node;
      es[o.i].used = true;
    }
    else if (k == 2) { o.k = Opd::P; o.i = ch.draw((uint32_t)p.size()); o.node = g.par(o.i); }
    else { o.k = Opd::N; o.num = rnd(); o.node = g.cst(ref::up(o.num)); }
    return o;
  }
  std::string optext(const Opd& o) {
    switch (o.k) {
    case Opd::V: return "x" + std::to_string(o.i);
    case Opd::P: return "p" + std::to_string(o.i);
    case Opd::E: return "e" + std::to_string(o.i);
    default: return ref::show(ref::up(o.num));
    }
  }
  Variable* V(const Opd& o) { return o.k == Opd::V ? &hv(o.i) : nullptr; }
  Parameter* P(const Opd& o) { return o.k == Opd::P ? &hp(o.i) : nullptr; }
  Expression* E(const Opd& o) { return o.k == Opd::E ? es[o.i].e : nullptr; }
  bool sane(int node, long double lim = 50) {
    LT t = now(node);
    return ref::finite(t) && ref::mag(t) < lim;
  }
  void push(Expression& e, int node, const std::string& text) {
    es.push_back({&e, node, text, 1});
    in.desc << "e" << es.size() - 1 << "=" << text << "; ";
  }
  void st_unary() {
    Opd a = operand(false);
    static const int ops[] = {ref::SIN, ref::NEG, ref::COS, ref::EXP, ref::TAN, ref::SINH, ref::COSH, ref::TANH, ref::ATAN, ref::ASINH, ref::SQRT, ref::LOG, ref::ASIN, ref::ACOS, ref::ACOSH, ref::ATANH};
    int op = ops[ch.draw(16)];
    int nd = g.un(op, a.node);
    // keep the case inside the differentiable domain at the current point
    if (!sane(nd) || !sane_grad(nd)) { op = ref::SIN; nd = g.un(op, a.node); }
    in.label(std::string("u:") + ref::opname(op));
    Expression& e = lib_unary(op, V(a), P(a), E(a));
    push(e, nd, std::string(ref::opname(op)) + "(" + optext(a) + ")");
  }
  bool sane_grad(int nd) {
    for (size_t k = 0; k < v.size(); ++k) {
      LT t = now(g.diff(nd, (int)k));
      if (!ref::finite(t) || ref::mag(t) > 1e4L) return false;
    }
    return true;
  }
  void st_binary() {
    Opd a = operand(true);
    Opd b = operand(a.k != Opd::N);
    static const int ops[] = {ref::MUL, ref::ADD, ref::SUB, ref::DIV, ref::POW};
    int op = ops[ch.pick({4, 3, 3, 3, 2})];
    int nd = g.bin(op, a.node, b.node);
    if (!sane(nd) || !sane_grad(nd)) { op = ref::ADD; nd = g.bin(op, a.node, b.node); }
    in.label(std::string("b:") + ref::opname(op) + (a.k == Opd::N ? "N" : "") + (b.k == Opd::N ? "_N" : ""));
    Expression& e = lib_binary(op, a, b, V(a), V(b), P(a), P(b), E(a), E(b));
    push(e, nd, op == ref::POW ? "pow(" + optext(a) + "," + optext(b) + ")" : optext(a) + ref::opname(op) + optext(b));
  }
  void st_shape() {
    if (shapes().empty()) return st_binary();
    auto it = shapes().begin();
    std::advance(it, ch.draw((uint32_t)shapes().size()));
    const Shape& s = it->second;
    if (p.empty()) add_par();
    if (es.empty()) st_binary();
    int a = ch.draw((uint32_t)v.size()), b = ch.draw((uint32_t)v.size()), c = ch.draw((uint32_t)v.size());
    int q = ch.draw((uint32_t)p.size());
    int e = ch.draw((uint32_t)es.size()), f = ch.draw((uint32_t)es.size());
    auto R = [&](int n) { return ref::R{&g, n}; };
    int nd = s.model(R(g.var(a)), R(g.var(b)), R(g.var(c)), R(g.par(q)), R(es[e].node), R(es[f].node));
    if (!sane(nd) || !sane_grad(nd)) return st_unary();
    in.label("shape");
    es[e].used = es[f].used = true;
    uses.push_back({&s, a, b, c, q, e, f, nd});
    Expression& r = s.lib(hv(a), hv(b), hv(c), hp(q), *es[e].e, *es[f].e);
    std::ostringstream os;
    os << "[" << s.text << " | a=x" << a << " b=x" << b << " c=x" << c << " p=p" << q << " e=e" << e << " f=e" << f << "]";
    push(r, nd, os.str());
  }
  // e = f(e, operand), the documented way of accumulating in a loop
  void st_rec() {
    Opd a = operand(true);
    auto draw_form = [&] { return ch.flip() ? REC_FORMS + (int)ch.draw(REC_MORE) : (int)ch.draw(REC_FORMS); };
    int form = draw_form();
    Expression* e;
    int nd;
    std::string t;
    // fresh accumulator starting from a variable or an expression
    Opd s = operand(false);
    e = new Expression();
    if (s.k == Opd::V) *e = *v[s.i];
    else if (s.k == Opd::P) *e = *p[s.i];
    else *e = (*es[s.i].e) * (Type)1;
    nd = s.node;
    t = "{acc=" + optext(s);
    int steps = 1 + ch.draw(maxrec);
    for (int k = 0; k < steps; ++k) {
      if (a.k == Opd::N) form %= REC_FORMS;
      const int more = form - REC_FORMS;
      int nn = more >= 0 ? ref_rec_more(g, more, nd, a.node) : ref_rec(g, form, nd, a.node, a.k == Opd::N ? ref::up(a.num) : LT(0.5));
      if (!sane(nn, 1e3) || !sane_grad(nn)) break;
      if (more < 0) lib_rec(form, *e, V(a), P(a), E(a), a.num);
      else (more < REC_MORE / 2 ? lib_rec_more0 : lib_rec_more1)(more, *e, V(a), P(a), E(a));
      nd = nn;
      std::string f = more >= 0 ? rec_text_more(more) : rec_text(form);
      t += ", acc=" + f + "[" + optext(a) + "]";
      if (ch.flip()) form = draw_form();
      if (ch.flip()) a = operand(true);
    }
    in.label("recursive");
    push(*e, nd, t + "}");
  }
  // one formula whose operands occur around and inside an operation
  void st_share() {
    if (!share().un) return st_unary();
    static const int uops[] = {ref::SIN, ref::COS, ref::TAN, ref::EXP, ref::LOG, ref::SQRT, ref::TANH, ref::SINH, ref::COSH, ref::ATAN, ref::ASINH, ref::NEG, ref::ACOSH, ref::ASIN, ref::ACOS, ref::ATANH};
    static const int bops[] = {ref::ADD, ref::SUB, ref::MUL, ref::DIV, ref::POW};
    const bool un = ch.draw(3) < 2;
    const int op = un ? uops[ch.draw(16)] : bops[ch.draw(5)];
    int form = (int)ch.draw(un ? 3 : 4);
    auto var = [&] { Opd o; o.k = Opd::V; o.i = (int)ch.draw((uint32_t)v.size()); o.node = g.var(o.i); return o; };
    Opd a = operand(false), b = operand(false);
    if (a.k == Opd::P) a = var();
    if (b.k == Opd::P || (a.k == Opd::E && b.k == Opd::E)) b = var();
    auto model = [&] { ref::R ra{&g, a.node}, rb{&g, b.node}; int nd = un ? share().un_ref(op, form, ra, rb) : share().bin_ref(op, form, ra, rb); return sane(nd) && sane_grad(nd) ? nd : -1; };
    int nd = model();
    if (nd < 0) { form = 1; nd = model(); }
    if (nd < 0) return st_unary();
    Expression* e = (un ? share().un : share().bin)(op, form, a.k, b.k, V(a), E(a), V(b), E(b));
    in.label(std::string("shared:") + ref::opname(op));
    push(*e, nd, std::string("share ") + ref::opname(op) + " form " + std::to_string(form) + "[a=" + optext(a) + ",b=" + optext(b) + "]");
  }
  // a long loop over many variables
  void st_crowd() {
    Opd s = operand(false);
    Expression* e = new Expression();
    if (s.k == Opd::V) *e = *v[s.i];
    else if (s.k == Opd::P) *e = *p[s.i];
    else *e = (*es[s.i].e) * (Type)1;
    int nd = s.node, form = (int)ch.draw(REC_FORMS), made = 0;
    std::string t = "{acc=" + optext(s);
    for (size_t i = 0; i < v.size(); ++i) {
      Opd a;
      a.k = Opd::V; a.i = (int)i; a.node = g.var((int)i);
      if (ch.draw(4) == 3) form = (int)ch.draw(REC_FORMS);
      int nn = ref_rec(g, form, nd, a.node, LT(0.5));
      if (!sane(nn, 1e3) || !(ref::mag(now(g.diff(nn, ref::ALL))) < 1e4L)) continue;
      lib_rec(form, *e, V(a), nullptr, nullptr, Type(0));
      nd = nn;
      ++made;
      t += std::string(", acc=") + rec_text(form) + "[x" + std::to_string(i) + "]";
    }
    in.label(made > 32 ? "crowd:>32 variables" : made > 8 ? "crowd:>8 variables" : "crowd");
    push(*e, nd, t + "}");
  }
  // change the meaning of an expression that no other formula refers to: extend it by formulas of
  // itself, or give it an entirely new formula. Returns its index, or -1
  int mutate() {
    std::vector<int> free;
    for (size_t k = 0; k < es.size(); ++k) if (!es[k].used) free.push_back((int)k);
    if (free.empty()) return -1;
    int k = free[ch.draw((uint32_t)free.size())];
    es[k].used = true; // never its own operand
    Expression& e = *es[k].e;
    auto other = [&](bool number_ok) {
      Opd a = operand(number_ok);
      if (a.k == Opd::E && a.i == k) { a.k = Opd::V; a.i = ch.draw((uint32_t)v.size()); a.node = g.var(a.i); }
      return a;
    };
    int nd = es[k].node, steps = 1 + ch.draw(3);
    bool done = false;
    if (ch.draw(3) == 0) { // a new formula
      Opd a = other(false), b = other(true);
      int how = ch.draw(4), nn;
      if (how == 0) nn = g.un(ref::SIN, g.bin(ref::MUL, a.node, g.var(0)));
      else if (how == 1) nn = a.node;
      else nn = how == 2 ? g.un(ref::COS, a.node) : g.bin(ref::ADD, a.node, b.node);
      if (sane(nn) && sane_grad(nn)) {
        if (how == 0) {
          Variable& x = hv(0);
          if (a.k == Opd::V) e = sin(*V(a) * x); else if (a.k == Opd::P) e = sin(*P(a) * x); else e = sin(*E(a) * x);
        } else if (how == 1) {
          if (a.k == Opd::V) e = *V(a); else if (a.k == Opd::P) e = *P(a); else e = *E(a);
        } else { // through another named expression
          Expression& t = how == 2 ? lib_unary(ref::COS, V(a), P(a), E(a)) : lib_binary(ref::ADD, a, b, V(a), V(b), P(a), P(b), E(a), E(b));
          e = t;
        }
        nd = nn;
        done = true;
        in.label("mutated:reassigned");
        static const char* t[] = {"sin(a*x0)", "a", "cos(a) named first", "a+b named first"};
        in.desc << "e" << k << ":=" << t[how] << "[a=" << optext(a) << (how == 3 ? ",b=" + optext(b) : "") << "]; ";
        if (ch.flip()) steps = 0;
      }
    }
    for (int q = 0; q < steps; ++q) {
      Opd a = other(true);
      int form = ch.flip() && a.k != Opd::N ? REC_FORMS + (int)ch.draw(REC_MORE) : (int)ch.draw(REC_FORMS);
      const int more = form - REC_FORMS;
      int nn = more >= 0 ? ref_rec_more(g, more, nd, a.node) : ref_rec(g, form, nd, a.node, a.k == Opd::N ? ref::up(a.num) : LT(0.5));
      if (!sane(nn, 1e3) || !sane_grad(nn)) break;
      if (more < 0) lib_rec(form, e, V(a), P(a), E(a), a.num);
      else (more < REC_MORE / 2 ? lib_rec_more0 : lib_rec_more1)(more, e, V(a), P(a), E(a));
      nd = nn;
      done = true;
      in.label("mutated:extended");
      in.desc << "e" << k << ":=" << (more >= 0 ? rec_text_more(more) : rec_text(form)) << "[acc=e" << k << "," << optext(a) << "]; ";
    }
    es[k].used = false;
    es[k].node = nd;
    return done ? k : -1;
  }
  unsigned w_rec = 1, w_custom = 0, w_lit = 0, w_alias = 0, maxrec = 4;
  int ncustom = 0;
  void st_custom() {
    int w = ch.draw((uint32_t)v.size());
    if (ch.draw(3)) {
      int op = ch.draw(CUSTOM_UN), form = ch.draw(CUSTOM_FORMS);
      Opd a = operand(false);
      if (!custom_un_ok(op)) op = 0;
      int nd = X().ref_custom1(g, op, form, a.node, g.var(w));
      if (!sane(nd) || !sane_grad(nd)) { op = 1; nd = X().ref_custom1(g, op, form, a.node, g.var(w)); }
      if (!sane(nd) || !sane_grad(nd)) return st_binary();
      Expression& e = X().lib_custom1(op, form, V(a), P(a), E(a), hv(w));
      in.label(std::string("c1:") + std::to_string(op));
      push(e, nd, X().custom1_text(op, form) + "[u=" + optext(a) + ",w=x" + std::to_string(w) + "]");
    } else {
      int op = ch.draw(CUSTOM_BIN), form = ch.draw(CUSTOM_FORMS);
      Opd a = operand(true), b = operand(a.k != Opd::N);
      int nd = X().ref_custom2(g, op, form, a.node, b.node, g.var(w));
      if (!sane(nd) || !sane_grad(nd)) { op = 0; nd = X().ref_custom2(g, op, form, a.node, b.node, g.var(w)); }
      if (!sane(nd) || !sane_grad(nd)) return st_binary();
      Expression& e = X().lib_custom2(op, a, b, V(a), V(b), P(a), P(b), E(a), E(b), form, hv(w));
      in.label(std::string("c2:") + std::to_string(op));
      push(e, nd, X().custom2_text(op, form) + "[u=" + optext(a) + ",v=" + optext(b) + ",w=x" + std::to_string(w) + "]");
    }
    ++ncustom;
  }
  void st_literal() {
    Opd a = operand(false);
    static const int ops[] = {ref::MUL, ref::ADD, ref::SUB, ref::DIV, ref::POW};
    int op = ops[ch.draw(5)], kind = ch.draw(LIT_KINDS), n = 1 + (int)ch.draw(6);
    bool left = ch.flip();
    int c = g.cst(X().lit_value(kind, n));
    int nd = left ? g.bin(op, c, a.node) : g.bin(op, a.node, c);
    if (!sane(nd) || !sane_grad(nd)) { op = ref::ADD; nd = left ? g.bin(op, c, a.node) : g.bin(op, a.node, c); }
    Expression& e = X().lib_literal(op, kind, left, n, V(a), P(a), E(a));
    std::string l = std::string(X().lit_name(kind)) + "(" + ref::show(X().lit_value(kind, n)) + ")";
    in.label(std::string("lit:") + X().lit_name(kind));
    push(e, nd, (left ? l : optext(a)) + " " + ref::opname(op) + " " + (left ? optext(a) : l));
    ++ncustom;
  }
  bool crowded = true; // a few programs have many variables
  void build(int maxstmt) {
    int nv = 1 + ch.draw(4);
    const bool crowd = crowded && ch.draw(40) == 39;
    if (crowd) nv += 5 + ch.draw(70);
    for (int i = 0; i < nv; ++i) add_var();
    int np = ch.draw(3);
    for (int i = 0; i < np; ++i) add_par();
    if (w_alias) { if (p.empty()) add_par(); add_handles(); }
    int n = 1 + ch.draw(maxstmt);
    for (int i = 0; i < n; ++i) {
      switch (ch.pick({5, 5, 3, w_rec, w_custom, w_lit, w_alias, 3})) {
      case 0: st_binary(); break;
      case 1: st_unary(); break;
      case 2: st_shape(); break;
      case 3: st_rec(); break;
      case 4: st_custom(); break;
      case 5: st_literal(); break;
      case 7: st_share(); break;
      default: add_handles();
      }
      if (crowd && i == 0) st_crowd();
    }
    if (es.empty()) st_binary();
  }
};

inline std::string cmp_text(const std::string& what, const Type& got, const ref::Val& want) {
  std::ostringstream os;
  os.precision(15);
  os << what << ": library " << ref::show(ref::up(got)) << " but the formula gives " << ref::show(want.v) << " (tolerance scale " << (double)(want.sens + ref::mag(want.v)) << ")";
  return os.str();
}
// compare a library number with the oracle; outside its domain the comparison is skipped
inline bool expect(Info& in, const std::string& what, const Type& got, const ref::Val& want) {
  if (!want.ok) { ++in.skipped; return false; }
  ++in.checks;
  long double scale = want.sens + ref::mag(want.v) + 1e-2L;
  long double d = ref::mag(ref::up(got) - want.v);
  if (!(d <= ref::TOLC * scale)) throw Fail{cmp_text(what, got, want)};
  return true;
}
} // namespace sp
