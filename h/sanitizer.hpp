// Included once per binary. Sanitizer settings of the instrumented builds: no leak reports (the library keeps
// its nodes until exit), and reports end in SIGABRT so that the failing case can be recorded and shrunk.
// C19: the programs of all other properties, where only a sanitizer report, a crash or a hang counts.
#pragma once
#include "core.hpp"
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=1:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:detect_stack_use_after_return=0:allocator_may_return_null=1"; }
extern "C" const char* __ubsan_default_options() { return "abort_on_error=1:print_stacktrace=0"; }
namespace {
void c19(pbt::Choices& ch, pbt::Info& in) {
  std::vector<const pbt::Property*> ps;
  for (auto& p : pbt::registry()) if (p.id[0] == 'C' && p.id != "C19" && p.id != "C20") ps.push_back(&p);
  const pbt::Property& p = *ps[ch.draw((uint32_t)ps.size())];
  in.label("program-of:" + p.id);
  try {
    p.fn(ch, in);
    in.nontrivial = in.checks >= 2;
  } catch (pbt::Fail&) { // a wrong value is the business of the other properties
    in.nontrivial = true;
  }
}
pbt::Reg reg_c19({"C19", "at least two results were computed under the sanitizers", c19, 30000, 400000, 100});
} // namespace
