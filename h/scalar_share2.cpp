#include "scalar_share.hpp"
namespace sp {
static Expression* bin_a(int op, int form, Opd::Kind ka, Opd::Kind kb, Variable* va, Expression* ea, Variable* vb, Expression* eb) {
  return ka == Opd::V ? kb == Opd::V ? bin_share<ShareLib>(op, form, *va, *vb) : bin_share<ShareLib>(op, form, *va, *eb)
                      : bin_share<ShareLib>(op, form, *ea, *vb);
}
static int bin_r(int op, int form, ref::R a, ref::R b) { return bin_share<ShareRef>(op, form, a, b); }
static bool reg = (share().bin = bin_a, share().bin_ref = bin_r, true);
} // namespace sp
