#!/usr/bin/env python3
"""Generate random statically nested scalar expressions (expression-template types the
dynamic generator cannot reach). Deterministic in the seed.
usage: gen_shapes.py SEED COUNT NFILES OUTDIR"""
import random, sys, os

seed, count, nfiles, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
rng = random.Random(seed * 7919 + 13)
os.makedirs(out, exist_ok=True)
UN_FREE = ["sin", "cos", "tanh", "atan", "asinh", "-", "sinh", "cosh", "exp", "tan"]
UN_DOM = ["log", "sqrt", "asin", "acos", "acosh", "atanh"]
BIN = ["+", "-", "*", "/"]
NUM = ["2", "3", "0.5", "1.5", "-1.25", "0.25", "-2", "Type(0.75)", "1"]


def num():
    return rng.choice(NUM)


def leaf():
    return rng.choice(["a", "b", "a", "b", "c", "p", "e", "f"])


def gen(d):
    """returns text; never a bare number"""
    if d <= 0:
        return leaf()
    r = rng.random()
    if r < 0.10:
        return leaf()
    if r < 0.33:
        u = rng.choice(UN_FREE)
        t = gen(d - 1)
        if u in ("exp", "sinh", "cosh", "tan"):
            t = "0.5*" + wrap(t) if rng.random() < 0.5 else t
        return f"(-{wrap(t)})" if u == "-" else f"{u}({t})"
    if r < 0.47:
        u = rng.choice(UN_DOM)
        t = gen(d - 1)
        if rng.random() < 0.75:
            if u in ("log", "sqrt"):
                t = f"2.5 + sin({t})"
            elif u == "acosh":
                t = f"3 + cos({t})"
            else:
                t = f"0.5*sin({t})"
        return f"{u}({t})"
    if r < 0.62:  # number involved
        t = gen(d - 1)
        k = rng.randrange(10)
        n = num()
        if k == 0: return f"({wrap(t)} + {n})"
        if k == 1: return f"({n} + {wrap(t)})"
        if k == 2: return f"({wrap(t)} - {n})"
        if k == 3: return f"({n} - {wrap(t)})"
        if k == 4: return f"({wrap(t)} * {n})"
        if k == 5: return f"({n} * {wrap(t)})"
        if k == 6: return f"({wrap(t)} / {n})"
        if k == 7: return f"({n} / (2.5 + {wrap(t)}))"
        if k == 8: return f"pow({t}, {rng.choice(['2', '3', '0.5', '-1', '1.5'])})"
        return f"pow({rng.choice(['2', '0.5', '1.5'])}, {t})"
    if r < 0.70:
        return f"pow({'2.5 + sin(' + gen(d-1) + ')' if rng.random() < 0.6 else gen(d-1)}, {gen(d-2)})"
    o = rng.choices(BIN, [3, 3, 4, 2])[0]
    l, r_ = gen(d - 1), gen(d - 1 if rng.random() < 0.6 else d - 2)
    if o == "/" and rng.random() < 0.5:
        r_ = f"(3 + {wrap(r_)})"
    return f"({wrap(l)} {o} {wrap(r_)})"


def wrap(t):
    return t


def size(t):
    return sum(t.count(x) for x in "(+*/")


# constructs every batch contains
CONS = [u + "(" for u in UN_FREE + UN_DOM if u != "-"] + ["(-", "p", "e", "f", "pow(2,", "pow(0.5", "pow(1.5", ", 2)", ", 0.5)", ", -1)"] + [x + o for o in ("+ ", "- ", "* ", "/ ") for x in (") ", "a ", "p ", "e ")] + \
       [o + x for o in (" +", " -", " *", " /") for x in (" (", " b", " p", " f")]
pool = []
while len(pool) < 60 * count:
    t = gen(rng.choice([2, 3, 3, 4, 4, 5]))
    if 4 <= len(t) <= 170 and t not in pool:
        pool.append(t)
# of a large sample, take the formulas that contribute the rarest constructs not yet present
weight = {c: 1 / max(1, sum(c in t for t in pool)) for c in CONS}
missing = set(weight)
shapes = []
while len(shapes) < count:
    best = max(pool, key=lambda t: sum(weight[c] for c in missing if c in t)) if len(shapes) % 3 < 2 else pool[rng.randrange(len(pool))]
    pool.remove(best)
    shapes.append(best)
    missing -= {c for c in CONS if c in best}

import re
def on_ref(t):
    return re.sub(r"\b([abcpef])\b", r"R\1", t).replace("Type(", "ref::LT(")

per = (len(shapes) + nfiles - 1) // nfiles
for f in range(nfiles):
    L = ['#include "scalar_prog.hpp"', "namespace sp {"]
    for k, t in list(enumerate(shapes))[f * per:(f + 1) * per]:
        L.append(f"static Expression& shp_{k}(Variable& a, Variable& b, Variable& c, Parameter& p, Expression& e, Expression& f) {{\n"
                 f"  return Expression::ExpressionFactory::CreateExpression({t});\n}}")
        L.append(f"static Type shd_{k}(Variable& a, Variable& b, Variable& c, Parameter& p, Expression& e, Expression& f, int mode, Variable& w) {{\n"
                 f"  namespace R1 = CoolDiff::TensorR1; const auto& t = ({t});\n"
                 f"  return mode == 0 ? R1::Eval(t) : mode == 1 ? R1::DevalF(t, w) : R1::Eval(R1::SymDiff(t, w));\n}}")
        L.append(f"static int shr_{k}(ref::R Ra, ref::R Rb, ref::R Rc, ref::R Rp, ref::R Re, ref::R Rf) {{\n"
                 f"  using namespace ref; return ({on_ref(t)}).i;\n}}")
        L.append(f'static ShapeReg sreg_{k}({k}, "{t}", shp_{k}, shr_{k}, shd_{k});')
    L.append("}")
    p = os.path.join(out, f"shapes_{f}.cpp")
    txt = "\n".join(L) + "\n"
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)
