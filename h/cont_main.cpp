// C15: matrices as containers, against a reference model of values, shapes and shared storage.
#include "CoolDiff.hpp"
#include "core.hpp"
#include "sanitizer.hpp"
#include <memory>
#include <numeric>
namespace {
using pbt::Choices;
using pbt::Discard;
using pbt::Fail;
using pbt::Info;
namespace R1 = CoolDiff::TensorR1;
namespace R2 = CoolDiff::TensorR2;

template <class T> T value(Choices& ch) {
  double d = (double)((int)ch.draw(41) - 20) / 4;
#ifdef USE_COMPLEX_MATH
  if constexpr (std::is_same_v<T, Type>) return Type((Real)d, ch.flip() ? (Real)((double)ch.draw(9) / 2 - 2) : (Real)0);
#endif
  return (T)d;
}
template <class T> std::string show(const T& v) { std::ostringstream os; os << v; return os.str(); }

// the model: a matrix is a shape over a storage; clones and external buffers share storage
template <class T> struct Obj {
  Matrix<T>* m;
  size_t r, c;
  std::shared_ptr<std::vector<T>> st;
  bool heap;        // deleted by us
  bool hollow{false}; // moved from: may only be assigned to or destroyed
  T* ext{nullptr};  // external buffer it was built on
  std::string nm;
};
template <class T> struct World {
  Choices& ch;
  Info& in;
  std::vector<Obj<T>> o;
  std::vector<std::pair<T*, std::shared_ptr<std::vector<T>>>> bufs; // external buffers and their model
  int made{0};
  bool wide{false}; // some histories use larger matrices
  World(Choices& c, Info& i) : ch{c}, in{i} { wide = ch.draw(16) == 15; if (wide) in.label("wide"); }
  size_t dim() { return wide && ch.flip() ? 5 + ch.draw(36) : 1 + ch.pick({3, 4, 3, 2, 1}); }
  std::string d(size_t r, size_t c) { return std::to_string(r) + "x" + std::to_string(c); }
  Obj<T>& add(Matrix<T>* m, size_t r, size_t c, std::shared_ptr<std::vector<T>> st, bool heap) {
    o.push_back({m, r, c, st, heap, false, nullptr, "M" + std::to_string(made++)});
    return o.back();
  }
  int pick(bool any = false) {
    std::vector<int> v;
    for (size_t i = 0; i < o.size(); ++i) if (any || !o[i].hollow) v.push_back((int)i);
    if (v.empty()) { fresh(); return (int)o.size() - 1; }
    return v[ch.draw((uint32_t)v.size())];
  }
  // other objects look at the same storage: the owner must not go away
  bool shared(int i) { int n = 0; for (auto& x : o) n += x.st == o[i].st && !x.hollow; return n > 1; }
  std::shared_ptr<std::vector<T>> vals(size_t n, T v = T{}) { return std::make_shared<std::vector<T>>(n, v); }
  void fresh() {
    size_t r = dim(), c = dim();
    switch (ch.pick({4, 3, 1, 2, 1, 1})) {
    case 0: { // zero initialised, then filled
      auto st = vals(r * c);
      auto& x = add(new Matrix<T>(r, c), r, c, st, true);
      in.desc << x.nm << "=(" << d(r, c) << "); ";
      if (ch.draw(4)) { for (size_t k = 0; k < r * c; ++k) { (*st)[k] = value<T>(ch); (*x.m)[k] = (*st)[k]; } in.desc << "filled; "; }
      break;
    }
    case 1: {
      T v = value<T>(ch);
      auto& x = add(new Matrix<T>(r, c, v), r, c, vals(r * c, v), true);
      in.desc << x.nm << "=(" << d(r, c) << "," << show(v) << "); ";
      break;
    }
    case 2: { auto& x = add(new Matrix<T>(), 1, 1, vals(1), true); in.desc << x.nm << "=(); "; break; }
    case 3: { // on a buffer of the user
      auto st = vals(r * c);
      T* b = new T[r * c];
      for (size_t k = 0; k < r * c; ++k) b[k] = (*st)[k] = value<T>(ch);
      auto& x = add(new Matrix<T>(r, c, b), r, c, st, true);
      x.ext = b;
      bufs.push_back({b, st});
      in.desc << x.nm << "=(" << d(r, c) << ",buffer); ";
      in.label("c:external");
      break;
    }
    case 4: { auto& m = Matrix<T>::MatrixFactory::CreateMatrix(r, c); auto& x = add(&m, r, c, vals(r * c), false); in.desc << x.nm << "=CreateMatrix(" << d(r, c) << "); "; break; }
    default: { T v = value<T>(ch); auto* m = Matrix<T>::MatrixFactory::CreateMatrixPtr(r, c, v); auto& x = add(m, r, c, vals(r * c, v), false); in.desc << x.nm << "=CreateMatrixPtr(" << d(r, c) << "," << show(v) << "); "; }
    }
  }
  void same(const std::string& what, const Matrix<T>& m, size_t r, size_t c, const std::vector<T>& v) {
    if (m.getNumRows() != r || m.getNumColumns() != c || m.getNumElem() != r * c || m.getFinalNumRows() != r || m.getFinalNumColumns() != c || m.getFinalNumElem() != r * c)
      throw Fail{what + ": the shape is " + d(m.getNumRows(), m.getNumColumns()) + ", should be " + d(r, c)};
    const Matrix<T>& k = m;
    Matrix<T>& w = const_cast<Matrix<T>&>(m);
    for (size_t i = 0; i < r; ++i)
      for (size_t j = 0; j < c; ++j) {
        const T& want = v[i * c + j];
        auto chk = [&](const T& g, const char* how) {
          if (!(g == want)) throw Fail{what + how + " (" + std::to_string(i) + "," + std::to_string(j) + ") is " + show(g) + ", should be " + show(want)};
        };
        chk(k(i, j), " const()");
        chk(w(i, j), " ()");
        chk(k[i * c + j], " const[]");
        chk(w[i * c + j], " []");
        chk(k.getRowPtr(i)[j], " getRowPtr");
        chk(k.getMatrixPtr()[i * c + j], " getMatrixPtr");
      }
    ++in.checks;
  }
  void check(int i) { if (!o[i].hollow) same(o[i].nm, *o[i].m, o[i].r, o[i].c, *o[i].st); }
  void check_all() {
    for (size_t i = 0; i < o.size(); ++i) check((int)i);
    for (auto& b : bufs)
      for (size_t k = 0; k < b.second->size(); ++k)
        if (!(b.first[k] == (*b.second)[k])) throw Fail{"a buffer given to a matrix holds " + show(b.first[k]) + " instead of " + show((*b.second)[k])};
  }
  void destroy(size_t i) {
    if (o[i].heap) delete o[i].m;
    o.erase(o.begin() + i);
  }
  // the target of an assignment lets go of what it held
  bool may_release(int i) { return !shared(i) || o[i].ext || view(i); }
  std::set<Matrix<T>*> views; // clones: never free the storage they look at
  bool view(int i) { return views.count(o[i].m) > 0; }
  // the caller of getBlockMat and pad hands in no matrix, or one to reuse
  struct Res { Matrix<T>* p; int idx; };
  Res result_arg(int src) {
    if (ch.flip()) return {nullptr, -1};
    int k = pick();
    if (k == src || o[k].st == o[src].st) return {nullptr, -1};
    return {o[k].m, k};
  }
  void got(Res a, Matrix<T>* now, size_t r, size_t c, const std::vector<T>& v, const char* what) {
    if (!now) throw Fail{std::string(what) + ": no result"};
    if (a.p && o[a.idx].r * o[a.idx].c == r * c) { // reused in place
      if (now != a.p) throw Fail{std::string(what) + ": a fitting result matrix was not reused"};
      o[a.idx].r = r;
      o[a.idx].c = c;
      *o[a.idx].st = v;
      in.label("c:result-reused");
    } else {
      if (now == a.p) throw Fail{std::string(what) + ": a result matrix of another size was kept"};
      add(now, r, c, std::make_shared<std::vector<T>>(v), false);
    }
  }
  std::vector<T> part(int i, size_t r0, size_t r1, size_t c0, size_t c1) {
    std::vector<T> v;
    for (size_t a = r0; a <= r1; ++a) for (size_t b = c0; b <= c1; ++b) v.push_back((*o[i].st)[a * o[i].c + b]);
    return v;
  }
  void step() {
    switch (ch.pick({2, 5, 3, 3, 2, 2, 2, 3, 3, 2, 2, 2, 2, 1, 2, 2, 2})) {
    case 0: fresh(); break;
    case 1: { // write an element
      int i = pick();
      size_t a = ch.draw((uint32_t)o[i].r), b = ch.draw((uint32_t)o[i].c), k = a * o[i].c + b;
      T v = value<T>(ch);
      (*o[i].st)[k] = v;
      switch (ch.draw(4)) {
      case 0: (*o[i].m)(a, b) = v; break;
      case 1: (*o[i].m)[k] = v; break;
      case 2: o[i].m->getRowPtr(a)[b] = v; break;
      default: o[i].m->getMatrixPtr()[k] = v;
      }
      in.desc << o[i].nm << "(" << a << "," << b << "):=" << show(v) << "; ";
      break;
    }
    case 2: { // block
      int i = pick();
      size_t r0 = ch.draw((uint32_t)o[i].r), r1 = r0 + ch.draw((uint32_t)(o[i].r - r0)), c0 = ch.draw((uint32_t)o[i].c), c1 = c0 + ch.draw((uint32_t)(o[i].c - c0));
      auto v = part(i, r0, r1, c0, c1);
      Res a = result_arg(i);
      Matrix<T>* q = a.p;
      in.desc << "block " << o[i].nm << "[" << r0 << ".." << r1 << "," << c0 << ".." << c1 << "]" << (a.p ? "->" + o[a.idx].nm : "") << "; ";
      in.label("c:block");
      o[i].m->getBlockMat({r0, r1}, {c0, c1}, q);
      got(a, q, r1 - r0 + 1, c1 - c0 + 1, v, "getBlockMat");
      break;
    }
    case 3: { // set a block
      int i = pick(), j = pick();
      if (o[j].r > o[i].r || o[j].c > o[i].c) std::swap(i, j);
      if (o[j].r > o[i].r || o[j].c > o[i].c) break;
      if (o[i].st == o[j].st && (o[i].r != o[j].r || o[i].c != o[j].c)) break;
      size_t r0 = ch.draw((uint32_t)(o[i].r - o[j].r + 1)), c0 = ch.draw((uint32_t)(o[i].c - o[j].c + 1));
      in.desc << o[i].nm << ".setBlock(" << r0 << "," << c0 << "," << o[j].nm << "); ";
      in.label("c:set-block");
      o[i].m->setBlockMat({r0, r0 + o[j].r - 1}, {c0, c0 + o[j].c - 1}, o[j].m);
      auto src = *o[j].st;
      for (size_t a = 0; a < o[j].r; ++a) for (size_t b = 0; b < o[j].c; ++b) (*o[i].st)[(a + r0) * o[i].c + b + c0] = src[a * o[j].c + b];
      break;
    }
    case 4: { // rows and columns
      int i = pick();
      bool row = ch.flip(), rv = ch.flip();
      size_t k = ch.draw((uint32_t)(row ? o[i].r : o[i].c));
      auto v = row ? part(i, k, k, 0, o[i].c - 1) : part(i, 0, o[i].r - 1, k, k);
      in.desc << (row ? "row " : "column ") << k << " of " << o[i].nm << (rv ? " (temporary)" : "") << "; ";
      in.label(row ? "c:row" : "c:column");
      Matrix<T>* m;
      if (rv) m = row ? new Matrix<T>(Matrix<T>(*o[i].m).getRow(k)) : new Matrix<T>(Matrix<T>(*o[i].m).getColumn(k));
      else m = row ? new Matrix<T>(o[i].m->getRow(k)) : new Matrix<T>(o[i].m->getColumn(k));
      add(m, v.size(), 1, std::make_shared<std::vector<T>>(v), true);
      break;
    }
    case 5: { // padding
      if constexpr (std::is_same_v<T, Type>) {
        int i = pick();
        size_t p = ch.draw(3), q = ch.draw(3);
        if (wide && ch.draw(4) == 3) { p = ch.draw(12); q = ch.draw(12); }
        if (o[i].r + 2 * p > (wide ? 70 : 9) || o[i].c + 2 * q > (wide ? 70 : 9)) break;
        size_t r = o[i].r + 2 * p, c = o[i].c + 2 * q;
        std::vector<T> v(r * c, T{});
        for (size_t a = 0; a < o[i].r; ++a) for (size_t b = 0; b < o[i].c; ++b) v[(a + p) * c + b + q] = (*o[i].st)[a * o[i].c + b];
        Res a = result_arg(i);
        Matrix<T>* z = a.p;
        in.desc << "pad " << o[i].nm << " by " << p << "," << q << (a.p ? "->" + o[a.idx].nm : "") << "; ";
        in.label("c:pad");
        o[i].m->pad(p, q, z);
        got(a, z, r, c, v, "pad");
      }
      break;
    }
    case 6: { // reshape
      int i = pick();
      std::vector<size_t> f;
      size_t n = o[i].r * o[i].c;
      for (size_t k = 1; k <= n; ++k) if (n % k == 0) f.push_back(k);
      size_t r = f[ch.draw((uint32_t)f.size())];
      in.desc << o[i].nm << ".reshape(" << d(r, n / r) << "); ";
      in.label("c:reshape");
      o[i].m->reshape(r, n / r);
      o[i].r = r;
      o[i].c = n / r;
      break;
    }
    case 7: { // copy
      int i = pick();
      in.desc << "copy of " << o[i].nm << "; ";
      in.label("c:copy");
      auto r = o[i].r, c = o[i].c;
      auto st = std::make_shared<std::vector<T>>(*o[i].st);
      add(new Matrix<T>(*o[i].m), r, c, st, true);
      break;
    }
    case 8: { // assignment
      int i = pick(true), j = pick();
      if (i != j && !o[i].hollow && !may_release(i)) break;
      in.desc << o[i].nm << "=" << o[j].nm << "; ";
      in.label(i == j ? "c:self-assign" : "c:assign");
      *o[i].m = *o[j].m;
      if (i == j) break;
      o[i].r = o[j].r; o[i].c = o[j].c;
      o[i].st = std::make_shared<std::vector<T>>(*o[j].st);
      o[i].hollow = false;
      o[i].ext = nullptr;
      views.erase(o[i].m);
      break;
    }
    case 9: { // move construction
      int i = pick();
      in.desc << "moved from " << o[i].nm << "; ";
      in.label("c:move");
      auto r = o[i].r, c = o[i].c;
      auto st = o[i].st;
      auto* e = o[i].ext;
      bool vw = view(i);
      o[i].hollow = true;
      o[i].ext = nullptr;
      views.erase(o[i].m);
      o[i].st = nullptr;
      Matrix<T>* src = o[i].m;
      auto& x = add(new Matrix<T>(std::move(*src)), r, c, st, true);
      x.ext = e;
      if (vw) views.insert(x.m);
      break;
    }
    case 10: { // move assignment, also onto itself
      int i = pick(true), j = pick();
      if (i != j && !o[i].hollow && !may_release(i)) break;
      in.desc << o[i].nm << "=move(" << o[j].nm << "); ";
      in.label(i == j ? "c:self-move" : "c:move-assign");
      *o[i].m = std::move(*o[j].m);
      if (i == j) break;
      o[i].r = o[j].r; o[i].c = o[j].c; o[i].st = o[j].st; o[i].ext = o[j].ext;
      o[i].hollow = false;
      bool vw = view(j);
      views.erase(o[i].m); views.erase(o[j].m);
      if (vw) views.insert(o[i].m);
      o[j].hollow = true; o[j].st = nullptr; o[j].ext = nullptr;
      break;
    }
    case 11: { // swap
      int i = pick(), j = pick();
      in.desc << "swap(" << o[i].nm << "," << o[j].nm << "); ";
      in.label("c:swap");
      std::swap(*o[i].m, *o[j].m);
      if (i == j) break;
      bool a = view(i), b = view(j);
      std::swap(o[i].r, o[j].r); std::swap(o[i].c, o[j].c); std::swap(o[i].st, o[j].st); std::swap(o[i].ext, o[j].ext);
      views.erase(o[i].m); views.erase(o[j].m);
      if (a) views.insert(o[j].m);
      if (b) views.insert(o[i].m);
      break;
    }
    case 12: { // clone: a view of the same elements
      if constexpr (std::is_same_v<T, Type>) {
        int i = pick();
        in.label("c:clone");
        if (ch.flip()) {
          Matrix<T>* q = nullptr;
          in.desc << "clone of " << o[i].nm << "; ";
          Matrix<T>* ret = o[i].m->clone(q);
          if (ret != q || !q) throw Fail{"clone returns another matrix than it set"};
          add(q, o[i].r, o[i].c, o[i].st, false);
          views.insert(q);
        } else {
          int j = pick(true);
          if (i == j || (!o[j].hollow && (shared(j) && !view(j)))) break;
          if (!o[j].hollow && !view(j) && !o[j].ext) break; // would leave its own elements behind
          Matrix<T>* q = o[j].m;
          in.desc << "clone of " << o[i].nm << " into " << o[j].nm << "; ";
          o[i].m->clone(q);
          o[j].r = o[i].r; o[j].c = o[i].c; o[j].st = o[i].st; o[j].hollow = false; o[j].ext = nullptr;
          views.insert(o[j].m);
        }
      }
      break;
    }
    case 13: { // destroy
      int i = pick(true);
      if (!o[i].heap || (!o[i].hollow && !may_release(i))) break;
      in.desc << "delete " << o[i].nm << "; ";
      in.label("c:delete");
      views.erase(o[i].m);
      destroy(i);
      break;
    }
    case 14: { // copy all elements
      int i = pick();
      in.label("c:copy-data");
      if (ch.flip()) {
        std::vector<int> v;
        for (size_t k = 0; k < o.size(); ++k) if (!o[k].hollow && o[k].r * o[k].c == o[i].r * o[i].c && o[k].st != o[i].st) v.push_back((int)k);
        if (v.empty()) break;
        int j = v[ch.draw((uint32_t)v.size())];
        in.desc << o[i].nm << ".copyData(" << o[j].nm << "); ";
        o[i].m->copyData(*o[j].m);
        *o[i].st = *o[j].st;
      } else {
        std::vector<T> b;
        for (size_t k = 0; k < o[i].r * o[i].c; ++k) b.push_back(value<T>(ch));
        in.desc << o[i].nm << ".copyData(buffer); ";
        o[i].m->copyData(b.data());
        *o[i].st = b;
      }
      break;
    }
    case 15: { // in a growing and shrinking std::vector
      std::vector<Matrix<T>> v;
      std::vector<std::pair<std::pair<size_t, size_t>, std::vector<T>>> w;
      int n = 1 + (int)ch.draw(6);
      in.desc << "vector{";
      for (int k = 0; k < n; ++k) {
        int i = pick();
        size_t at = ch.draw((uint32_t)v.size() + 1);
        v.insert(v.begin() + at, *o[i].m);
        w.insert(w.begin() + at, {{o[i].r, o[i].c}, *o[i].st});
        in.desc << o[i].nm << "@" << at << " ";
        if (v.size() > 1 && ch.draw(4) == 0) {
          size_t e = ch.draw((uint32_t)v.size());
          v.erase(v.begin() + e);
          w.erase(w.begin() + e);
          in.desc << "-@" << e << " ";
        }
      }
      if (ch.flip()) { std::reverse(v.begin(), v.end()); std::reverse(w.begin(), w.end()); in.desc << "reversed"; }
      in.desc << "}; ";
      in.label("c:vector");
      for (size_t k = 0; k < v.size(); ++k) same("vector[" + std::to_string(k) + "]", v[k], w[k].first.first, w[k].first.second, w[k].second);
      break;
    }
    default: { // printing and evaluation
      int i = pick();
      std::ostringstream a, b;
      a << *o[i].m;
      for (size_t r = 0; r < o[i].r; ++r) { for (size_t c = 0; c < o[i].c; ++c) b << (*o[i].st)[r * o[i].c + c] << " "; b << "\n"; }
      in.desc << "print " << o[i].nm << "; ";
      in.label("c:print");
      if (a.str() != b.str()) throw Fail{"printing " + o[i].nm + " gives '" + a.str() + "' instead of '" + b.str() + "'"};
      if constexpr (std::is_same_v<T, Type>) {
        Matrix<Type>& e = R2::Eval(*o[i].m);
        same("Eval(" + o[i].nm + ")", e, o[i].r, o[i].c, *o[i].st);
      }
      ++in.checks;
    }
    }
  }
};
template <class T> void run(Choices& ch, Info& in) {
  World<T> w(ch, in);
  w.fresh();
  int n = 3 + (int)ch.draw(14);
  for (int s = 0; s < n; ++s) { w.step(); w.check_all(); }
  while (!w.o.empty()) { // views go first
    size_t k = w.o.size() - 1;
    for (size_t i = 0; i < w.o.size(); ++i) if (w.view((int)i)) k = i;
    w.destroy(k);
  }
  for (auto& b : w.bufs) { for (size_t k = 0; k < b.second->size(); ++k) if (!(b.first[k] == (*b.second)[k])) throw Fail{"destroying a matrix changed the buffer it was given"}; delete[] b.first; }
}

// parts and copies of matrices of variables and parameters denote the same variables and parameters
void handles(Choices& ch, Info& in) {
  size_t r = 1 + ch.draw(3), c = 1 + ch.draw(3);
  Matrix<Variable>* X = new Matrix<Variable>(r, c);
  std::vector<Type> val;
  in.desc << "X[" << r << "x" << c << "]; ";
  for (size_t k = 0; k < r * c; ++k) { val.push_back(value<Type>(ch)); (*X)[k] = val[k]; }
  struct V { Matrix<Variable>* m; size_t r, c; std::vector<int> id; };
  std::vector<V> vs{{X, r, c, {}}};
  for (size_t k = 0; k < r * c; ++k) vs[0].id.push_back((int)k);
  int n = 2 + (int)ch.draw(8);
  for (int s = 0; s < n; ++s) {
    int i = (int)ch.draw((uint32_t)vs.size());
    V a = vs[i];
    switch (ch.draw(9)) {
    case 0: case 1: { // set through some handle
      size_t k = ch.draw((uint32_t)a.id.size());
      if (a.id[k] < 0) break;
      Type t = value<Type>(ch);
      (*a.m)[k] = t;
      val[a.id[k]] = t;
      in.desc << "W" << i << "[" << k << "]:=" << show(t) << "; ";
      break;
    }
    case 2: { vs.push_back({new Matrix<Variable>(*a.m), a.r, a.c, a.id}); in.desc << "copy of W" << i << "; "; in.label("h:copy"); break; }
    case 3: { auto* m = new Matrix<Variable>(); *m = *a.m; vs.push_back({m, a.r, a.c, a.id}); in.desc << "assigned W" << i << "; "; in.label("h:assign"); break; }
    case 4: {
      size_t k = ch.draw((uint32_t)a.r);
      V b{new Matrix<Variable>(a.m->getRow(k)), a.c, 1, {}};
      for (size_t j = 0; j < a.c; ++j) b.id.push_back(a.id[k * a.c + j]);
      vs.push_back(b);
      in.desc << "row " << k << " of W" << i << "; ";
      in.label("h:row");
      break;
    }
    case 5: {
      size_t k = ch.draw((uint32_t)a.c);
      V b{new Matrix<Variable>(a.m->getColumn(k)), a.r, 1, {}};
      for (size_t j = 0; j < a.r; ++j) b.id.push_back(a.id[j * a.c + k]);
      vs.push_back(b);
      in.desc << "column " << k << " of W" << i << "; ";
      in.label("h:column");
      break;
    }
    case 6: {
      size_t r0 = ch.draw((uint32_t)a.r), r1 = r0 + ch.draw((uint32_t)(a.r - r0)), c0 = ch.draw((uint32_t)a.c), c1 = c0 + ch.draw((uint32_t)(a.c - c0));
      Matrix<Variable>* q = nullptr;
      a.m->getBlockMat({r0, r1}, {c0, c1}, q);
      V b{q, r1 - r0 + 1, c1 - c0 + 1, {}};
      for (size_t x = r0; x <= r1; ++x) for (size_t y = c0; y <= c1; ++y) b.id.push_back(a.id[x * a.c + y]);
      vs.push_back(b);
      in.desc << "block of W" << i << "; ";
      in.label("h:block");
      break;
    }
    case 7: { // give one element another variable of X
      if (i == 0) break;
      size_t k = ch.draw((uint32_t)a.id.size()), t = ch.draw((uint32_t)(r * c));
      (*a.m)[k] = (*X)[t];
      vs[i].id[k] = (int)t;
      in.desc << "W" << i << "[" << k << "]=X[" << t << "]; ";
      in.label("h:rebind");
      break;
    }
    default: { // write a part into another matrix
      int j = (int)ch.draw((uint32_t)vs.size());
      if (i == 0 || i == j || vs[j].r > a.r || vs[j].c > a.c) break;
      size_t r0 = ch.draw((uint32_t)(a.r - vs[j].r + 1)), c0 = ch.draw((uint32_t)(a.c - vs[j].c + 1));
      a.m->setBlockMat({r0, r0 + vs[j].r - 1}, {c0, c0 + vs[j].c - 1}, vs[j].m);
      for (size_t x = 0; x < vs[j].r; ++x) for (size_t y = 0; y < vs[j].c; ++y) vs[i].id[(x + r0) * a.c + y + c0] = vs[j].id[x * vs[j].c + y];
      in.desc << "W" << i << ".setBlock(" << r0 << "," << c0 << ",W" << j << "); ";
      in.label("h:set-block");
    }
    }
    if (ch.flip()) continue;
    int k = (int)ch.draw((uint32_t)vs.size());
    V& w = vs[k];
    in.desc << "read W" << k << "; ";
    auto& e = R2::Eval(*w.m);
    if (e.getNumRows() != w.r || e.getNumColumns() != w.c) throw Fail{"Eval of a part of a variable matrix has the wrong shape"};
    for (size_t q = 0; q < w.id.size(); ++q) {
      if (!(e[q] == val[w.id[q]])) throw Fail{"Eval W" + std::to_string(k) + "[" + std::to_string(q) + "] is " + show(e[q]) + " but the variable is " + show(val[w.id[q]])};
      if (!(R1::Eval((*w.m)[q]) == val[w.id[q]])) throw Fail{"the variable W" + std::to_string(k) + "[" + std::to_string(q) + "] does not hold the value it was given"};
    }
    int b = (int)ch.draw((uint32_t)vs.size());
    V& y = vs[b];
    std::set<int> u(y.id.begin(), y.id.end());
    in.desc << "derivative by W" << b << "; ";
    auto& D = R2::DevalF(*w.m, *y.m);
    if (D.getNumRows() != w.r * y.r || D.getNumColumns() != w.c * y.c) throw Fail{"derivative of a variable matrix by another has the wrong shape"};
    for (size_t l = 0; l < w.r; ++l) for (size_t m = 0; m < w.c; ++m) for (size_t p = 0; p < y.r; ++p) for (size_t q = 0; q < y.c; ++q) {
      Type want = (Type)(Real)(w.id[l * w.c + m] == y.id[p * y.c + q]);
      if (!(D(l * y.r + p, m * y.c + q) == want))
        throw Fail{"derivative of W" + std::to_string(k) + "(" + std::to_string(l) + "," + std::to_string(m) + ") by W" + std::to_string(b) + "(" + std::to_string(p) + "," + std::to_string(q) + ") is " + show(D(l * y.r + p, m * y.c + q)) + " instead of " + show(want)};
    }
    in.checks += 2;
  }
}
// shared constant matrices, index helpers
void constants(Choices& ch, Info& in) {
  namespace MB = R2::MatrixBasics;
  int n = 1 + (int)ch.draw(6);
  std::map<std::string, const Matrix<Type>*> seen;
  for (int s = 0; s < n; ++s) {
    size_t r = 1 + ch.draw(9), c = 1 + ch.draw(9);
    int kind = (int)ch.draw(3), form = (int)ch.draw(4);
    if (kind == 0 || form % 2) c = r;
    const std::string al = ch.flip() ? std::string("CPUMemoryStrategy") : std::string("CPU") + "MemoryStrategy";
    const Matrix<Type>* m;
    if (kind == 0) m = form < 2 ? MB::Eye("CPUMemoryStrategy", r) : &MB::EyeRef("CPUMemoryStrategy", r);
    else if (kind == 1) m = form == 0 ? MB::Ones("CPUMemoryStrategy", r, c) : form == 1 ? MB::Ones("CPUMemoryStrategy", r) : form == 2 ? &MB::OnesRef("CPUMemoryStrategy", r, c) : &MB::OnesRef("CPUMemoryStrategy", r);
    else m = form == 0 ? MB::Zeros("CPUMemoryStrategy", r, c) : form == 1 ? MB::Zeros("CPUMemoryStrategy", r) : form == 2 ? &MB::ZerosRef("CPUMemoryStrategy", r, c) : &MB::ZerosRef("CPUMemoryStrategy", r);
    const char* nm[] = {"Eye", "Ones", "Zeros"};
    std::string id = std::string(nm[kind]) + " " + std::to_string(r) + "x" + std::to_string(c);
    in.desc << id << "; ";
    in.label(std::string("k:") + nm[kind]);
    if (m->getNumRows() != r || m->getNumColumns() != c) throw Fail{id + " has shape " + std::to_string(m->getNumRows()) + "x" + std::to_string(m->getNumColumns())};
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j)
      if (!((*m)(i, j) == (Type)(Real)(kind == 0 ? i == j : kind == 1))) throw Fail{id + " (" + std::to_string(i) + "," + std::to_string(j) + ") is " + show((*m)(i, j))};
    ++in.checks;
  }
}
// random filling: every call uses the parameters it was given
void filling(Choices& ch, Info& in) {
  int n = 2 + (int)ch.draw(4);
  for (int s = 0; s < n; ++s) {
    size_t r = 1 + ch.draw(5), c = 1 + ch.draw(5);
    Matrix<Type> m(r, c, (Type)(Real)7);
    auto all = [&](const std::string& what, auto ok) {
      in.desc << what << " into " << r << "x" << c << "; ";
      if (m.getNumRows() != r || m.getNumColumns() != c) throw Fail{what + " changed the shape of the matrix"};
      for (size_t k = 0; k < r * c; ++k) if (!ok(m[k])) throw Fail{what + ": element " + std::to_string(k) + " is " + show(m[k])};
      ++in.checks;
    };
    int w = (int)ch.draw(3);
#ifndef USE_COMPLEX_MATH
    if (w == 0) {
      Real lo = (Real)((int)ch.draw(9) - 4), hi = lo + (Real)(1 + (int)ch.draw(3)) / 2;
      R2::Details::FillRandomValues<std::uniform_real_distribution>(m, lo, hi);
      in.label("fill:uniform");
      all("uniform values in [" + show(lo) + "," + show(hi) + "]", [&](Type v) { return v >= lo && v <= hi; });
      continue;
    }
    if (w == 1) {
      Real mu = (Real)((int)ch.draw(9) - 4) * 10, sd = (Real)1 / (Real)(1 << ch.draw(4));
      R2::Details::FillRandomValues<std::normal_distribution>(m, mu, sd);
      in.label("fill:normal");
      all("normal values around " + show(mu) + " with deviation " + show(sd), [&](Type v) { return std::abs(v - mu) <= 12 * sd; });
      continue;
    }
#endif
    int q = (int)ch.draw(2);
    R2::Details::FillRandomValues<std::bernoulli_distribution>(m, (double)q);
    in.label("fill:bernoulli");
    all("Bernoulli values with probability " + std::to_string(q), [&](Type v) { return v == (Type)(Real)q; });
  }
}
void c15(Choices& ch, Info& in) {
  switch (ch.pick({16, 4, 8, 2, 1})) {
  case 4: in.label("filling"); filling(ch, in); break;
  case 0: in.label("containers:Type"); run<Type>(ch, in); break;
  case 1: in.label("containers:real"); run<Real>(ch, in); break;
  case 2: in.label("handles"); handles(ch, in); break;
  default: constants(ch, in);
  }
  in.nontrivial = in.checks >= 3;
}
pbt::Reg r15({"C15", "at least three full comparisons of contents with the model", c15, 800000, 12000000, 500});
} // namespace
#ifndef CONFIG_NAME
#define CONFIG_NAME none
#endif
int main(int argc, char** argv) { return pbt::harness_main(argc, argv, TOSTRING(CONFIG_NAME)); }
