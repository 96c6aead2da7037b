// Agreement of the linear algebra backends, derived functions, rejection of ill-formed operands, bounded memory.
#include "matrix_calls.hpp"
using namespace mp;
namespace {
std::vector<Type> values(Matrix<Type>& m) { return std::vector<Type>(m.getMatrixPtr(), m.getMatrixPtr() + m.getNumElem()); }
void agree(Info& in, const std::string& what, const std::vector<Type>& a, Matrix<Type>& b, const char* na, const char* nb) {
  ref::ld scale = 1;
  for (auto& x : a) scale = std::max(scale, ref::mag(ref::up(x)));
  if (a.size() != b.getNumElem()) throw Fail{what + ": " + na + " and " + nb + " disagree on the size of the result"};
  for (size_t k = 0; k < a.size(); ++k)
    if (!(ref::mag(ref::up(a[k]) - ref::up(b[k])) <= ref::TOLC * scale * 100)) {
      std::ostringstream os;
      os << what << ": element " << k << " is " << ref::show(ref::up(a[k])) << " with " << na << " but " << ref::show(ref::up(b[k])) << " with " << nb;
      throw Fail{os.str()};
    }
  ++in.checks;
}
// C14: the same program, the same point, both backends
void m_backends(Choices& ch, Info& in) {
  MProg P(ch, in);
  P.maxel = 12;
  P.widen(150);
  P.inv_ok = false;
  P.backend(ch.flip());
  P.w_mix = 0;
  bool rev = ch.draw(3) == 0;
  if (rev) build_rev(P, 2); else P.build(5);
  const char* nm[] = {"Eigen", "naive"};
  int both = 0;
  for (int round = 0; round < 2; ++round) {
    if (round) P.set_values();
    int first = ch.draw(2);
    int k = rev ? pick_rev(P) : pick_any(P);
    int what = rev ? (int)ch.draw(3) : (int)ch.draw(2);
    if (what == 0) {
      std::vector<Type> got;
      for (int q = 0; q < 2; ++q) {
        P.backend((first + q) % 2);
        if (!check_eval(P, k, nm[(first + q) % 2])) break;
        Matrix<Type>& m = lib_eval(P.es[k].m);
        if (q) { agree(in, "Eval " + P.nm(k), got, m, nm[first], nm[1 - first]); ++both; } else got = values(m);
      }
    } else if (what == 1) {
      int x = pick_X(P);
      std::vector<Type> got;
      for (int q = 0; q < 2; ++q) {
        P.backend((first + q) % 2);
        if (!check_fwd(P, k, x, nm[(first + q) % 2])) break;
        Matrix<Type>& m = lib_fwd(P.es[k].m, P.es[x].m.v());
        if (q) { agree(in, "DevalF " + P.nm(k) + " wrt " + P.nm(x), got, m, nm[first], nm[1 - first]); ++both; } else got = values(m);
      }
    } else {
      int n = 0;
      for (int q = 0; q < 2; ++q) { P.backend((first + q) % 2); n += check_rev(P, k, nm[(first + q) % 2]); }
      both += n == 2;
    }
  }
  in.nontrivial = both >= 1;
}
// C16: functions defined in terms of others
void m_derived(Choices& ch, Info& in) {
  MProg P(ch, in);
  P.maxel = 9;
  P.widen(60);
  random_backend(P);
  P.un_pool = {U_SOFT, U_SOFTR, U_SOFTC, U_FROB, U_MEXPD, U_MLOGD, U_POWH, U_EXPH, U_LOGH, U_TRACE, U_POW0, U_POW1, U_POW2, U_POW3, U_MEXP, U_MLOG, U_CUSTOM, U_SIGM, U_SIG, U_SIGR, U_SIGC, U_BRO, U_BROR, U_BROC, U_RECIP, U_TANH, U_SQRT};
#ifndef USE_COMPLEX_MATH
  P.un_pool.insert(P.un_pool.end(), {U_RELU, U_LRELU, U_ABS});
#endif
  P.w_un = 14; P.w_mix = 4; P.w_shape = 0;
  P.build(4);
  for (int round = 0; round < 2; ++round) {
    if (round) P.set_values();
    for (size_t j = 0; j < P.es.size(); ++j) if (P.es[j].m.k == E) check_eval(P, (int)j);
    int k = pick_any(P);
    check_fwd(P, k, pick_X(P));
  }
  in.nontrivial = in.checks >= 3;
}

// C20: operands that do not fit are reported, never computed with
std::string outcome(const std::function<void()>& f) { // "" = reported
  int fd[2];
  if (pipe(fd)) return "";
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    dup2(fd[1], 1);
    dup2(fd[1], 2);
    setvbuf(stdout, nullptr, _IONBF, 0);
    for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) signal(s, SIG_DFL);
    try { f(); } catch (...) { _exit(44); }
    _exit(42);
  }
  close(fd[1]);
  std::string t;
  char b[4096];
  ssize_t n;
  while ((n = read(fd[0], b, sizeof b)) > 0) if (t.size() < 100000) t.append(b, n);
  close(fd[0]);
  int ws = 0;
  waitpid(pid, &ws, 0);
  if (WIFEXITED(ws) && WEXITSTATUS(ws) == 42) return "accepted: a result was returned";
  if (WIFEXITED(ws) && WEXITSTATUS(ws) == 43) return "skip";
  if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGABRT && t.find("[ERROR MSG]") != std::string::npos) return "";
  if (WIFEXITED(ws) && WEXITSTATUS(ws) == 44) return "an exception other than the library's report ended the call";
  std::ostringstream os;
  if (WIFSIGNALED(ws)) os << "the process was killed by signal " << WTERMSIG(ws) << (WTERMSIG(ws) == SIGABRT ? " without an error message of the library" : "");
  else os << "the process ended with exit code " << WEXITSTATUS(ws);
  return os.str();
}
void m_reject(Choices& ch, Info& in) {
  MProg P(ch, in);
  P.maxel = 16;
  P.widen(100);
  bool nv = ch.flip();
  P.backend(nv);
  P.inv_ok = !nv;
  in.desc << (nv ? "naive; " : "eigen; ");
  P.w_shape = 1;
  P.build(3);
  int q = 1 + ch.draw(2);
  for (int z = 0; z < q; ++z) {
    int a = P.need(-1, -1), ar = P.es[a].r.r, ac = P.es[a].r.c;
    int what = (int)ch.draw(12);
    std::function<void()> f;
    std::string t;
    auto use = [&P](Matrix<Expression>* m) { R2::Eval(*m); };
    auto X = P.pick_V();
    auto both = [&P, X](Matrix<Expression>* m, bool fwd) { if (fwd) R2::DevalF(*m, P.es[X].m.v()); else R2::Eval(*m); };
    bool fwd = ch.draw(3) == 0;
    int st = P.style();
    if (what <= 5) { // binary operations
      int op = (int)ch.draw(8);
      if (op == B_MOD && nv) op = B_ADD;
      int r = 1 + (int)ch.draw(4), c = 1 + (int)ch.draw(4);
      if (op == B_MUL && r == ac) r = ac + 1;
      if (op == B_MOD) { if (r == c) { if (c == ac) { r = c = ac + 1; } } }
      if (op <= B_DIV && op != B_MUL && r == ar && c == ac) (ch.flip() ? r : c)++;
      if (op == B_CATV && c == ac) c++;
      if (op == B_CATH && r == ar) r++;
      int b = P.need(r, c);
      if (!pair_ok(P.es[a].m.k, P.es[b].m.k)) continue;
      if (op > B_HAD && (P.es[a].m.k == mp::Kind::P || P.es[b].m.k == mp::Kind::P)) continue;
      bool swap = op != B_MUL && op != B_MOD && ch.flip();
      int l = swap ? b : a, rr = swap ? a : b;
      t = P.nm(l) + P.dims(P.es[l].r) + " " + bin_name(op) + " " + P.nm(rr) + P.dims(P.es[rr].r);
      Mat ml = P.es[l].m, mr = P.es[rr].m;
      in.label(std::string("reject:") + bin_name(op));
      f = [=] { both(op <= B_HAD ? lib_mbin_a(op, ml, mr, st) : lib_mbin_b(op, ml, mr, st), fwd); };
    } else if (what <= 7) { // square matrices required
      static const int ops[] = {U_INV, U_DET, U_TRACE, U_POW2, U_POW0, U_MEXP, U_MLOG, U_POW3};
      int op = ops[ch.draw(8)];
      if (nv && (op == U_INV || op == U_DET)) op = U_TRACE;
      int r = 1 + (int)ch.draw(3), c = r + 1 + (int)ch.draw(2);
      if (ch.flip()) std::swap(r, c);
      int b = P.need(r, c);
      if (op >= U_SOFT && P.es[b].m.k != E && P.es[b].m.k != V) continue;
      Mat m = P.es[b].m;
      t = std::string(un_name(op)) + " of " + P.nm(b) + P.dims(P.es[b].r);
      in.label(std::string("reject:") + un_name(op));
      f = [=] { both(op <= U_BROC ? lib_mun_b(op, m, 1, st) : lib_mun_c(op, m, 1, st), fwd); };
    } else if (what == 8) { // only a row or column can be broadcast
      int r = 2 + (int)ch.draw(2), c = 2 + (int)ch.draw(2), op = U_BRO + (int)ch.draw(3);
      int b = P.need(r, c);
      Mat m = P.es[b].m;
      t = std::string(un_name(op)) + " of " + P.nm(b) + P.dims(P.es[b].r);
      in.label("reject:broadcast");
      f = [=] { both(lib_mun_b(op, m, 2, st), fwd); };
    } else if (what == 9) { // kernel larger than the padded image
      size_t px = ch.draw(2), py = ch.draw(2), sx = 1 + ch.draw(4), sy = 1 + ch.draw(4);
      bool byrow = ch.flip();
      int kr = ar + 2 * (int)px, kc = ac + 2 * (int)py;
      if (byrow) { kr += 1 + (int)ch.draw(2); kc = 1 + (int)ch.draw((uint32_t)kc); } else { kc += 1 + (int)ch.draw(2); kr = 1 + (int)ch.draw((uint32_t)kr); }
      int b = P.need(kr, kc);
      if (P.es[a].m.k == mp::Kind::P || P.es[b].m.k == mp::Kind::P || (P.es[a].m.k == T && P.es[b].m.k == T)) continue;
      Mat ma = P.es[a].m, mb = P.es[b].m;
      t = "conv of " + P.dims(P.es[a].r) + " with " + P.dims(P.es[b].r) + " pad " + std::to_string(px) + "," + std::to_string(py) + " stride " + std::to_string(sx) + "," + std::to_string(sy);
      in.label("reject:conv");
      f = [=] { both(lib_conv(ma, mb, sx, sy, px, py, st), fwd); };
    } else if (what == 10) { // index out of range, containers
      auto* m = new Matrix<Type>((size_t)ar, (size_t)ac, (Type)1);
      int w = (int)ch.draw(9);
      static const char* n[] = {"(r,0)", "(0,c)", "[r*c]", "getRow(r)", "getColumn(c)", "reshape", "copyData", "getBlockMat", "setBlockMat"};
      t = std::string("container ") + n[w] + " of " + std::to_string(ar) + "x" + std::to_string(ac);
      in.label(std::string("reject:") + n[w]);
      f = [=] {
        Matrix<Type>* o = nullptr;
        size_t r = (size_t)ar, c = (size_t)ac;
        static volatile bool sink;
        switch (w) {
        case 0: sink = (*m)(r, 0) == (Type)1; break;
        case 1: sink = (*m)(0, c) == (Type)1; break;
        case 2: sink = (*m)[r * c] == (Type)1; break;
        case 3: m->getRow(r); break;
        case 4: m->getColumn(c); break;
        case 5: m->reshape(r + 1, c); break;
        case 6: { Matrix<Type> z(r + 1, c, (Type)2); m->copyData(z); break; }
        case 7: m->getBlockMat({0, fwd ? r : r - 1}, {0, fwd ? c - 1 : c}, o); break;
        default: { Matrix<Type> z(r, c + 1, (Type)2); m->setBlockMat({0, r - 1}, {0, c - 1}, &z); }
        }
      };
    } else { // reverse mode needs a scalar result
      if (ar * ac == 1 || P.es[a].m.k != E) continue;
      Mat m = P.es[a].m;
      t = "PreComp of " + P.nm(a) + P.dims(P.es[a].r);
      in.label("reject:reverse");
      f = [=] { R2::PreComp(m.e()); };
    }
    in.desc << t << (fwd ? " (DevalF)" : "") << "; ";
    std::string o = outcome(f);
    ++in.checks;
    if (!o.empty()) throw Fail{t + ": " + o};
  }
  in.nontrivial = in.checks >= 1;
}

pbt::Reg r14({"C14", "at least one result compared between both backends and with the reference", m_backends, 60000, 1000000, 100});
pbt::Reg r16({"C16", "at least three results of programs made of derived functions compared", m_derived, 60000, 1000000, 100});
pbt::Reg r20({"C20", "at least one ill-formed operation was tried", m_reject, 20000, 200000, 50});
} // namespace
