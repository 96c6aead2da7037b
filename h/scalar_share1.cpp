// formulas in which the operands of every operation are used again before and after it
#include "scalar_share.hpp"
namespace sp {
static Expression* un_a(int op, int form, Opd::Kind ka, Opd::Kind kb, Variable* va, Expression* ea, Variable* vb, Expression* eb) {
  return ka == Opd::V ? kb == Opd::V ? un_share<ShareLib>(op, form, *va, *vb) : un_share<ShareLib>(op, form, *va, *eb)
                      : un_share<ShareLib>(op, form, *ea, *vb);
}
static int un_r(int op, int form, ref::R a, ref::R b) { return un_share<ShareRef>(op, form, a, b); }
static bool reg = (share().un = un_a, share().un_ref = un_r, true);
} // namespace sp
