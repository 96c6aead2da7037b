// Property-based testing core: choice streams (recorded, replayable, shrinkable),
// forked execution, deterministic case seeds, statistics and evidence output.
#pragma once
#include <algorithm>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace pbt {

inline uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t s = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull);
  splitmix(s);
  return splitmix(s);
}
inline uint64_t hashstr(const std::string& t) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : t) { h ^= c; h *= 1099511628211ull; }
  return h;
}

// A stream of bounded choices. In generation mode they come from a PRNG, in
// replay mode from a recorded list (0 once it is exhausted). 0 is always the
// simplest choice, which is what makes shrinking work on the list alone.
struct Choices {
  std::vector<uint32_t> rec;
  std::vector<uint32_t> in;
  size_t pos{0};
  bool replay{false};
  uint64_t st{0};
  explicit Choices(uint64_t seed) : st{seed} {}
  explicit Choices(std::vector<uint32_t> v) : in{std::move(v)}, replay{true} {}
  uint32_t draw(uint32_t n) {
    if (n <= 1) return 0;
    uint32_t v;
    if (replay) {
      v = pos < in.size() ? in[pos] % n : 0;
      ++pos;
    } else {
      v = (uint32_t)(splitmix(st) % n);
    }
    rec.push_back(v);
    return v;
  }
  bool flip() { return draw(2) == 1; }
  // weighted pick: returns index
  size_t pick(std::initializer_list<unsigned> w) {
    unsigned tot = 0;
    for (auto x : w) tot += x;
    unsigned d = draw(tot), i = 0;
    for (auto x : w) {
      if (d < x) return i;
      d -= x;
      ++i;
    }
    return 0;
  }
  size_t range(size_t lo, size_t hi) { return lo + draw((uint32_t)(hi - lo + 1)); }
  // "nice" real number in [-lim, lim], never exactly on 0 unless allow0
  double real(double lim = 2.0, bool allow0 = false) {
    switch (pick({3, 5})) {
    case 0: {
      static const double t[] = {1, 2, -1, 0.5, -2, 1.5, -0.5, 0.75, -1.5, 0.25, -0.25, -0.75};
      double v = t[draw(12)];
      if (allow0 && draw(8) == 7) return 0;
      return std::abs(v) > lim ? v / 2 : v;
    }
    default: {
      double v = ((double)draw(20001) - 10000.0) / 10000.0 * lim;
      if (std::abs(v) < 0.05) v = v < 0 ? v - 0.05 : v + 0.05;
      return v;
    }
    }
  }
};

struct Fail {
  std::string msg;
};
struct Discard {
  std::string why;
};

// What one case reports about itself
struct Info {
  std::ostringstream desc;           // human readable rendering of the case
  std::map<std::string, int> labels; // classification
  bool nontrivial{false};
  long checks{0};   // comparisons made against the oracle
  long skipped{0};  // comparisons skipped (ill conditioned, outside domain)
  std::vector<std::string> excluded; // known findings excluded by construction
  void label(const std::string& s) { labels[s] = 1; }
};

using Prop = std::function<void(Choices&, Info&)>;

struct Property {
  std::string id;
  std::string rule; // what makes a case non-trivial
  Prop fn;
  int quick{2000}, thorough{40000};
  int batch{200};
  int min_nontrivial_pct{20};
};

inline std::vector<Property>& registry() {
  static std::vector<Property> r;
  return r;
}
struct Reg {
  Reg(Property p) { registry().push_back(std::move(p)); }
};

enum Status : int { ST_NONE = 0, ST_RUN = 1, ST_PASS = 2, ST_DISCARD = 3, ST_FAIL = 4 };
struct Slot {
  int status;
  int nontrivial;
  long checks, skipped;
  uint64_t hash;
  char labels[256];
};
constexpr size_t TXT = 1400; // failure message or sample rendering, per case, in a mapping of its own
inline char*& texts() { static char* t = nullptr; return t; }
inline char* text_of(long i) { return texts() + (size_t)i * TXT; }

struct Outcome {
  int status{ST_NONE};
  std::string msg;
  std::string desc;
  std::vector<uint32_t> rec;
};

inline void quiet_child() {
  int fd = open("/dev/null", O_WRONLY);
  if (fd >= 0 && !getenv("PBT_VERBOSE")) {
    dup2(fd, 1);
    dup2(fd, 2);
  }
  struct rlimit rl {};
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
}
inline void cpu_limit(int secs) {
  struct rlimit rl {};
  rl.rlim_cur = secs;
  rl.rlim_max = secs + 2;
  setrlimit(RLIMIT_CPU, &rl);
}

inline void run_into(const Property& p, Choices& ch, Info& in, int& status, std::string& msg) {
  status = ST_RUN;
  try {
    p.fn(ch, in);
    status = ST_PASS;
  } catch (Fail& f) {
    status = ST_FAIL;
    msg = f.msg;
  } catch (Discard& d) {
    status = ST_DISCARD;
    msg = d.why;
  } catch (std::exception& e) {
    status = ST_FAIL;
    msg = std::string("unexpected exception: ") + e.what();
  }
}

// Run choice lists in a forked child. `warm` = case seeds run first in the same process
// (only used when a failure depends on what the process did before).
struct IsoShm {
  int status;
  uint32_t n;
  uint32_t rec[60000];
  char msg[4000];
  char desc[16000];
};
struct IsoCtx { Choices* ch; Info* inf; IsoShm* s; };
inline IsoCtx& iso() { static IsoCtx c{}; return c; }
inline void iso_flush() {
  auto& c = iso();
  if (!c.s || !c.ch) return;
  c.s->n = (uint32_t)std::min<size_t>(c.ch->rec.size(), 60000);
  memcpy(c.s->rec, c.ch->rec.data(), c.s->n * sizeof(uint32_t));
  strncpy(c.s->desc, c.inf->desc.str().c_str(), sizeof(c.s->desc) - 1);
}
inline void iso_handler(int sg) {
  static volatile sig_atomic_t once = 0;
  if (!once) { once = 1; iso_flush(); }
  signal(sg, SIG_DFL);
  raise(sg);
}
inline Outcome run_isolated(const Property& p, const std::vector<uint32_t>* in, uint64_t seed, const std::vector<uint64_t>& warm = {}) {
  IsoShm* s = (IsoShm*)mmap(nullptr, sizeof(IsoShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Outcome o;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    quiet_child();
    cpu_limit(40 + (int)warm.size());
    s->status = ST_NONE;
    for (auto w : warm) {
      Choices ch(w); Info inf; int st; std::string m;
      run_into(p, ch, inf, st, m);
    }
    s->status = ST_RUN;
    Choices ch = in ? Choices(*in) : Choices(seed);
    Info inf;
    iso() = {&ch, &inf, s};
    static char alt[1 << 16];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    for (int sg : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGXCPU}) {
      struct sigaction sa{}; sa.sa_handler = iso_handler; sa.sa_flags = SA_ONSTACK; sigaction(sg, &sa, nullptr);
    }
    int st;
    std::string msg;
    run_into(p, ch, inf, st, msg);
    iso_flush();
    strncpy(s->msg, msg.c_str(), sizeof(s->msg) - 1);
    s->status = st;
    _exit(0);
  }
  int ws = 0;
  waitpid(pid, &ws, 0);
  o.status = s->status;
  o.desc = s->desc;
  o.rec.assign(s->rec, s->rec + s->n);
  if (s->status == ST_RUN || s->status == ST_NONE) {
    o.status = ST_FAIL;
    std::ostringstream os;
    if (WIFSIGNALED(ws))
      os << "process killed by signal " << WTERMSIG(ws) << " (" << strsignal(WTERMSIG(ws)) << ")";
    else
      os << "process ended with exit code " << WEXITSTATUS(ws);
    o.msg = os.str();
  } else {
    o.msg = s->msg;
  }
  munmap(s, sizeof(IsoShm));
  return o;
}

inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

inline std::vector<uint32_t> shrink(const Property& p, std::vector<uint32_t> best, double secs) {
  double t0 = now();
  auto bad = [&](const std::vector<uint32_t>& c) {
    if (now() - t0 > secs) return false;
    Outcome o = run_isolated(p, &c, 0);
    return o.status == ST_FAIL;
  };
  bool progress = true;
  int rounds = 0;
  while (progress && rounds++ < 8 && now() - t0 < secs) {
    progress = false;
    // truncate
    for (size_t n = best.size() / 2; n >= 1 && best.size() > 1; n /= 2) {
      while (best.size() > n) {
        auto c = best;
        c.resize(c.size() - n);
        if (bad(c)) { best = c; progress = true; } else break;
      }
    }
    // delete chunks
    for (size_t k : {32, 16, 8, 6, 5, 4, 3, 2, 1}) {
      for (size_t i = 0; i + k <= best.size();) {
        auto c = best;
        c.erase(c.begin() + i, c.begin() + i + k);
        if (bad(c)) { best = c; progress = true; } else ++i;
        if (now() - t0 > secs) return best;
      }
    }
    // zero / lower
    for (size_t i = 0; i < best.size(); ++i) {
      if (best[i] == 0) continue;
      for (uint32_t v : {0u, 1u, best[i] / 2, best[i] - 1}) {
        if (v >= best[i]) continue;
        auto c = best;
        c[i] = v;
        if (bad(c)) { best = c; progress = true; break; }
      }
      if (now() - t0 > secs) return best;
    }
  }
  return best;
}

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

inline int harness_main(int argc, char** argv, const std::string& config) {
  std::string prop, out, replay, replay_out;
  uint64_t seed = 1, salt = 0;
  bool thorough = false;
  double cap = 600;
  long ncases = -1;
  int jobs = 8;
  double scale = 1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--prop") prop = nx();
    else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--salt") salt = strtoull(nx().c_str(), 0, 10);
    else if (a == "--tier") thorough = nx() == "thorough";
    else if (a == "--cap") cap = atof(nx().c_str());
    else if (a == "--cases") ncases = atol(nx().c_str());
    else if (a == "--scale") scale = atof(nx().c_str());
    else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--out") out = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--replay-out") replay_out = nx();
    else if (a == "--list") {
      for (auto& p : registry()) std::cout << p.id << "\n";
      return 0;
    }
  }
  const Property* P = nullptr;
  for (auto& p : registry()) if (p.id == prop) P = &p;
  if (!P) { std::cerr << "no such property " << prop << "\n"; return 2; }
  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string line;
    std::vector<uint32_t> v;
    std::vector<uint64_t> warm;
    while (std::getline(f, line)) {
      if (line.rfind("warm:", 0) == 0) {
        std::istringstream is(line.substr(5));
        uint64_t x;
        while (is >> x) warm.push_back(x);
      }
      if (line.rfind("choices:", 0) == 0) {
        std::istringstream is(line.substr(8));
        uint32_t x;
        while (is >> x) v.push_back(x);
      }
    }
    Outcome o = run_isolated(*P, &v, 0, warm);
    std::cout << (o.status == ST_FAIL ? "FAIL " : o.status == ST_PASS ? "PASS " : "DISCARD ") << o.msg << "\n" << o.desc << "\n";
    return o.status == ST_FAIL ? 1 : 0;
  }
  long N = ncases > 0 ? ncases : (long)((thorough ? P->thorough : P->quick) * scale);
  uint64_t base = mix(mix(mix(seed, salt), hashstr(P->id)), hashstr(config));
  int B = P->batch;
  long nb = (N + B - 1) / B;
  Slot* slots = (Slot*)mmap(nullptr, sizeof(Slot) * (size_t)N, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  texts() = (char*)mmap(nullptr, TXT * (size_t)N, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (slots == MAP_FAILED || texts() == MAP_FAILED) { perror("mmap"); return 2; }
  struct Job { pid_t pid; long lo, hi; };
  std::map<pid_t, Job> running;
  std::vector<std::pair<long, long>> queue;
  for (long b = nb - 1; b >= 0; --b) queue.push_back({b * B, std::min(N, (b + 1) * B)});
  double t0 = now();
  long failed_at = -1;
  std::string fail_msg;
  long crashes = 0;
  bool stop = false;
  while (!queue.empty() || !running.empty()) {
    while (!stop && !queue.empty() && (int)running.size() < jobs) {
      auto q = queue.back();
      queue.pop_back();
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) {
        quiet_child();
        cpu_limit(300);
        for (long i = q.first; i < q.second; ++i) {
          Slot& s = slots[i];
          s.status = ST_RUN;
          Choices ch(mix(base, (uint64_t)i));
          Info inf;
          int st;
          std::string msg;
          run_into(*P, ch, inf, st, msg);
          s.nontrivial = inf.nontrivial && st == ST_PASS;
          s.checks = inf.checks;
          s.skipped = inf.skipped;
          std::string d = inf.desc.str();
          s.hash = hashstr(d);
          std::string l;
          for (auto& kv : inf.labels) l += kv.first + " ";
          if (l.size() >= sizeof(s.labels)) l.resize(l.rfind(' ', sizeof(s.labels) - 1));
          strncpy(s.labels, l.c_str(), sizeof(s.labels) - 1);
          if (st != ST_PASS) strncpy(text_of(i), msg.c_str(), TXT - 1);
          else if (i < 3000) strncpy(text_of(i), d.c_str(), TXT - 1);
          s.status = st;
          if (st == ST_FAIL) _exit(7);
        }
        _exit(0);
      }
      running[pid] = {pid, q.first, q.second};
    }
    if (running.empty()) break;
    int ws;
    pid_t pid = waitpid(-1, &ws, 0);
    auto it = running.find(pid);
    if (it == running.end()) continue;
    Job j = it->second;
    running.erase(it);
    bool ok = WIFEXITED(ws) && WEXITSTATUS(ws) == 0;
    if (!ok) {
      long i = j.lo;
      while (i < j.hi && (slots[i].status == ST_PASS || slots[i].status == ST_DISCARD)) ++i;
      if (i < j.hi) {
        if (slots[i].status != ST_FAIL) {
          // crashed or resource limit: only counts if the case fails when run alone too
          ++crashes;
          Outcome o = run_isolated(*P, nullptr, mix(base, (uint64_t)i));
          if (o.status == ST_FAIL) {
            slots[i].status = ST_FAIL;
            strncpy(text_of(i), o.msg.c_str(), TXT - 1);
          } else {
            slots[i].status = ST_DISCARD;
            if (i + 1 < j.hi) queue.push_back({i + 1, j.hi});
          }
        }
        if (slots[i].status == ST_FAIL) {
          if (getenv("PBT_KEEP_GOING")) {
            std::cerr << "FAIL case " << i << ": " << text_of(i) << "\n";
            if (i + 1 < j.hi) queue.push_back({i + 1, j.hi});
          } else {
            if (failed_at < 0 || i < failed_at) failed_at = i;
            stop = true;
          }
        }
      }
    }
    if (stop) queue.clear();
    if (now() - t0 > cap) { stop = true; queue.clear(); }
  }
  long evals = 0, pass = 0, disc = 0, checks = 0, skipped = 0, fails = 0;
  std::set<uint64_t> distinct;
  std::map<std::string, long> labels, why;
  std::vector<std::string> samples;
  for (long i = 0; i < N; ++i) {
    Slot& s = slots[i];
    if (s.status == ST_NONE || s.status == ST_RUN) continue;
    ++evals;
    if (s.status == ST_FAIL) ++fails;
    if (s.status == ST_DISCARD) { ++disc; why[text_of(i)]++; }
    if (s.status == ST_PASS) {
      ++pass;
      checks += s.checks;
      skipped += s.skipped;
      if (s.nontrivial) {
        if (distinct.insert(s.hash).second && samples.size() < 3 && i < 3000 && (i % 7 == 3 || N < 50)) samples.push_back(text_of(i));
      }
      std::istringstream is(s.labels);
      std::string w;
      while (is >> w) labels[w]++;
    }
  }
  int rc = 0;
  if (failed_at >= 0) {
    uint64_t cs = mix(base, (uint64_t)failed_at);
    Outcome o = run_isolated(*P, nullptr, cs);
    // a failure counts only if it reproduces every time
    bool stable = o.status == ST_FAIL;
    for (int k = 0; k < 2 && stable; ++k) stable = run_isolated(*P, nullptr, cs).status == ST_FAIL;
    std::vector<uint64_t> warm;
    if (!stable) {
      // it may depend on what ran earlier in the same process: rerun the batch prefix, then shrink that
      for (long k = failed_at / B * B; k < failed_at; ++k) warm.push_back(mix(base, (uint64_t)k));
      stable = true;
      for (int k = 0; k < 3 && stable; ++k) { o = run_isolated(*P, nullptr, cs, warm); stable = o.status == ST_FAIL; }
      double ts = now();
      for (size_t n = warm.size() / 2; stable && n >= 1; n /= 2)
        for (size_t k = 0; k + n <= warm.size() && now() - ts < 40;) {
          auto w = warm;
          w.erase(w.begin() + k, w.begin() + k + n);
          Outcome t = run_isolated(*P, nullptr, cs, w);
          if (t.status == ST_FAIL) { warm = w; o = t; } else k += n;
        }
    }
    if (!stable) {
      std::cerr << "[" << config << "] " << P->id << " case " << failed_at << " did not reproduce: " << text_of(failed_at) << "\n";
      rc = 3;
    } else {
      auto best = o.rec;
      if (warm.empty() && run_isolated(*P, &o.rec, 0).status == ST_FAIL) best = shrink(*P, o.rec, thorough ? 90 : 30);
      Outcome fin = run_isolated(*P, &best, 0, warm);
      std::ofstream f(replay_out);
      f << "property: " << P->id << "\nconfig: " << config << "\nseed: " << seed << " case: " << failed_at << "\nsalt: " << salt << "\ntier: " << (thorough ? "thorough" : "quick") << "\n";
      if (!warm.empty()) { f << "warm:"; for (auto v : warm) f << " " << v; f << "\n"; }
      f << "choices:";
      for (auto v : best) f << " " << v;
      f << "\nmessage: " << fin.msg << "\noriginal message: " << text_of(failed_at) << "\ncase:\n" << fin.desc << "\n";
      f.close();
      std::cerr << "[" << config << "] " << P->id << " case " << failed_at << ": " << fin.msg << "\n" << fin.desc << "\n";
      rc = 1;
    }
  }
  if (!out.empty()) {
    std::ofstream f(out);
    f << "{\"config\":\"" << config << "\",\"prop\":\"" << P->id << "\",\"evaluations\":" << evals << ",\"passed\":" << pass
      << ",\"discarded\":" << disc << ",\"distinct_nontrivial\":" << distinct.size() << ",\"checks\":" << checks << ",\"skipped\":" << skipped
      << ",\"planned\":" << N << ",\"crash_restarts\":" << crashes << ",\"failures\":" << fails << ",\"rc\":" << rc << ",\"rule\":\"" << jesc(P->rule) << "\",\"wall\":" << (now() - t0) << ",\"labels\":{";
    bool first = true;
    for (auto& kv : labels) { f << (first ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second; first = false; }
    f << "},\"discards\":{";
    first = true;
    for (auto& kv : why) { f << (first ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second; first = false; }
    f << "},\"samples\":[";
    first = true;
    for (auto& s : samples) { f << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
    f << "]}\n";
  }
  return rc;
}
} // namespace pbt
