#include "matrix_calls.hpp"
#include "sanitizer.hpp"
using namespace mp;

static void m_eval(Choices& ch, Info& in) {
  MProg P(ch, in);
  P.maxel = 25;
  P.widen(400);
  random_backend(P);
  P.build(6);
  for (int round = 0; round < 2; ++round) {
    if (round) P.set_values();
    if (round && ch.draw(3) == 0) P.st_extend();
    int n = (int)P.es.size();
    for (int j = 0; j < n; ++j) check_eval(P, (j + (int)ch.draw(n)) % n);
  }
  in.nontrivial = in.checks >= 3;
}
static void m_fwd(Choices& ch, Info& in) {
  MProg P(ch, in);
  P.maxel = 9;
  P.widen(60);
  random_backend(P);
  P.build(5);
  for (int round = 0; round < 2; ++round) {
    if (round) P.set_values();
    if (round && ch.draw(3) == 0) P.st_extend();
    int k = pick_any(P);
    int nx = 1 + ch.draw(2);
    for (int q = 0; q < nx; ++q) {
      int x = pick_X(P);
      check_fwd(P, k, x);
      if (ch.draw(3) == 0) check_eval(P, k, " after DevalF");
    }
  }
  in.nontrivial = in.checks >= 2;
}
static void m_rev(Choices& ch, Info& in) {
  MProg P(ch, in);
  P.maxel = 12;
  P.widen(60);
  random_backend(P);
  build_rev(P, 3);
  for (int round = 0; round < 2; ++round) {
    if (round) P.set_values();
    int k = pick_rev(P);
    check_rev(P, k);
    if (ch.draw(3) == 0) check_eval(P, k, " after reverse pass");
  }
  in.nontrivial = in.checks >= 2;
}
static void m_hist(Choices& ch, Info& in) {
  MProg P(ch, in);
  P.maxel = 9;
  P.widen(60);
  random_backend(P);
  P.build(5);
  int steps = 4 + ch.draw(9), reads = 0;
  for (int s = 0; s < steps; ++s) {
    switch (ch.pick({3, 4, 4, 2, 1, 2})) {
    case 0: P.set_values(30); break;
    case 5: {
      std::vector<int> rv;
      for (size_t i = 0; i < P.es.size(); ++i) if (P.es[i].m.k == E && P.es[i].rev) rv.push_back((int)i);
      if (rv.empty() || ch.draw(3) == 0) { if (rv.empty() || ch.flip()) P.st_shape(true); else P.st_rev(); break; }
      int k = rv[ch.draw((uint32_t)rv.size())];
      in.desc << "DevalR(" << P.nm(k) << "); ";
      in.label("hist:reverse");
      reads += check_rev(P, k);
      break;
    }
    case 1: { int k = pick_any(P); in.desc << "Eval(" << P.nm(k) << "); "; reads += check_eval(P, k); break; }
    case 2: { int k = pick_any(P), x = pick_X(P); in.desc << "DevalF(" << P.nm(k) << "," << P.nm(x) << "); "; reads += check_fwd(P, k, x); break; }
    case 3: switch (ch.draw(6)) { case 0: P.st_bin(); break; case 4: case 5: P.st_extend(); break; case 1: P.st_un(); break; case 2: P.st_copy(); break; default: P.st_reassign(); } break;
    default: random_backend(P);
    }
  }
  check_leaves(P);
  check_constants();
  in.nontrivial = reads >= 3;
}
static void m_conv(Choices& ch, Info& in) {
  MProg P(ch, in);
  P.maxel = 25;
  P.widen(200);
  P.w_conv = 14; P.w_shape = 0;
  random_backend(P);
  P.build(4);
  for (int round = 0; round < 2; ++round) {
    if (round) P.set_values();
    for (size_t k = 0; k < P.es.size(); ++k) check_eval(P, (int)k);
    int k = pick_any(P);
    if (P.es[k].r.n.size() <= (P.wide ? 200u : 12u)) check_fwd(P, k, pick_X(P));
  }
  in.nontrivial = in.checks >= 3 && in.labels.count("m:conv");
}
static pbt::Reg r11({"C11", "at least three matrices compared elementwise", m_eval, 60000, 1000000, 100});
static pbt::Reg r12({"C12", "at least two derivative matrices compared", m_fwd, 60000, 1000000, 100});
static pbt::Reg r13({"C13", "at least two reverse derivative matrices compared", m_rev, 45000, 1000000, 100});
static pbt::Reg r17({"C17", "the program contains a convolution and at least three matrices were compared", m_conv, 40000, 600000, 100});
static pbt::Reg r18({"C18", "at least three results of the history compared", m_hist, 60000, 1000000, 100});

#ifndef CONFIG_NAME
#define CONFIG_NAME none
#endif
int main(int argc, char** argv) { return pbt::harness_main(argc, argv, TOSTRING(CONFIG_NAME)); }
