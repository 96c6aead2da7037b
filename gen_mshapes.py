#!/usr/bin/env python3
"""Generate random statically nested matrix formulas, type directed by their dimensions (m, n, 1).
Deterministic in the seed.  usage: gen_mshapes.py SEED COUNT NFILES OUTDIR COMPLEX(0|1)"""
import random, sys, os

seed, count, nfiles, out, cplx = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5] == "1"
rng = random.Random(seed * 104729 + 7)
os.makedirs(out, exist_ok=True)
NUM = ["2", "0.5", "-1.25", "1.5", "-0.75", "3"]
FREE = ["SinM", "CosM", "TanhM", "SigmoidM", "ExpM"] + ([] if cplx else ["ReLUM", "LeakyReLUM", "AbsM"])


def num():
    return f"K.num({rng.choice(NUM)})"


def scalar():
    k = rng.randrange(7)
    return ["K.s(0)", "K.s(1)", "K.e(0)", "K.p(0)", "(K.s(0)*K.s(1))", "sin(K.s(0))", "(K.e(0)+K.s(1))"][k]


def leaf(r, c, rev):
    k = rng.random()
    s = rng.choice([0, 0, 1])
    if k < 0.55: return f"K.V_({r},{c},{s})"
    if k < 0.70: return f"K.T_({r},{c},{s})"
    if k < 0.75: return f"K.Eye({r})" if r == c else f"K.Ones({r},{c})"
    if rev and not (r == c == "1"): return f"K.V_({r},{c},{s})"
    return f"K.E_({r},{c},{s})"


def pos(t):
    return rng.choice([f"ExpM({t})", f"(SigmoidM({t}) + K.num(0.5))", f"(({t} ^ {t}) + K.num(0.75))"]) if not cplx else f"(SigmoidM({t}) + K.num(1.5))"


def gen(r, c, d, rev):
    if d <= 0:
        return leaf(r, c, rev)
    g = lambda R, C, D=d - 1: gen(R, C, D, rev)
    other = lambda: rng.choice(["m", "n", "1"])
    while True:
        k = rng.randrange(26)
        if k <= 2: return f"({g(r, c)} {rng.choice(['+', '-', '^'])} {g(r, c, d - rng.choice([1, 2]))})"
        if k <= 5:
            x = other()
            return f"({g(r, x)} * {g(x, c, d - rng.choice([1, 2]))})"
        if k == 6: return f"transpose({g(c, r)})"
        if k <= 9: return f"{rng.choice(FREE)}({g(r, c)})"
        if k == 10: return f"{rng.choice(['LogM', 'SqrtM'])}({pos(g(r, c))})"
        if k == 11:
            o = rng.choice(["+", "-", "*"])
            a, b = scalar(), g(r, c)
            return f"({a} {o} {b})" if rng.random() < 0.5 else f"({b} {o} {a})"
        if k == 12:
            o = rng.choice(["+", "-", "*", "/"])
            a, b = num(), g(r, c)
            return f"({a} {o} {b})" if rng.random() < 0.5 and o != "/" else f"({b} {o} {a})"
        if k == 13 and r == c: return f"inv({g(r, c)} + {num()}*K.Eye({r}))" if rng.random() < 0.6 else f"inv({g(r, c)})"
        if k == 14 and r == c: return f"pow<{rng.choice([1, 2, 3])}>({g(r, c)})"
        if k == 15 and r == c: return f"({g(r, c)} % ({g(r, c, d - 2)} + K.num(3)*K.Eye({r})))"
        if k == 16 and r == c: return f"MatrixExp<3>({g(r, c, d - 2)})"
        if k == 17 and r == c == "1":
            x = rng.choice(["m", "n"])
            return rng.choice([f"det({g(x, x)})", f"trace({g(x, x)})", f"Sigma({g(x, other())})", f"MatrixFrobeniusNorm({g(x, other())})", f"Sigma({g(x, other())})"])
        if k == 18 and r == "1": return f"Sigma<Axis::ROW>({g(other(), c)})"
        if k == 18 and c == "1": return f"Sigma<Axis::COLUMN>({g(r, other())})"
        if k == 19: return f"broadcast<Axis::ROW>({g('1', c)}, {r})" if rng.random() < 0.5 else f"broadcast<Axis::COLUMN>({g(r, '1')}, {c})"
        if k == 20: return f"SoftMax{rng.choice(['', '<Axis::ROW>', '<Axis::COLUMN>'])}({g(r, c)})"
        if k == 21: return f"({g(r, c)} / {pos(g(r, c, d - 2))})" if rng.random() < 0.7 else f"({g(r, c)} / {g(r, c, d - 2)})"
        if k == 24:
            a, b = g(r, c), g(r, c, d - rng.choice([1, 2]))
            return f"(K.T_({r},{r}+{r},0) * concat<ConcatAxis::VERTICAL>({a}, {b}))" if rng.random() < 0.5 else f"(concat<ConcatAxis::HORIZONTAL>({a}, {b}) * transpose(K.V_({c},{c}+{c},0)))"
        if k == 25 and r == c == "1":
            x, y = rng.choice("mn"), rng.choice("mn")
            return f"(transpose(vec({g(x, y)})) * vec({g(x, y, d - 2)}))"
        if k == 22 and c == "1" and r != "1":
            return f"(K.T_({r},{r}*n,0) * vec({g(r, 'n')}))" if rng.random() < 0.5 else f"(transpose(K.T_(n*{r},{r},0)) * vec({g('n', r)}))"
        if k == 23 and not rev:
            return f"({g(r, c)} + conv({g(r, c)}, {leaf('1', '1', rev)}, 1, 1, 0, 0))" if rng.random() < 0.5 else f"conv({g(r, c)}, K.{rng.choice('VT')}_(3,3,0), 1, 1, 1, 1)"


# constructs every batch should contain, in formulas for reverse mode and in others
CONS = ["inv(", "pow<", " % ", "det(", "trace(", "MatrixFrobeniusNorm(", "Sigma(", "Sigma<Axis::ROW>", "Sigma<Axis::COLUMN>", "broadcast<Axis::ROW>", "broadcast<Axis::COLUMN>",
        "SoftMax(", "SoftMax<Axis::ROW>", "SoftMax<Axis::COLUMN>", " / ", "vec(", "concat<ConcatAxis::VERTICAL>", "concat<ConcatAxis::HORIZONTAL>", "MatrixExp", "transpose(", "LogM",
        "SqrtM", "K.p(", "K.e(", "K.s(", " * K.s", "K.s(0) * ", "K.s(0) - ", " ^ ", " - ", " + K.num", " * K.num", " / K.num", "conv("] + [f + "(" for f in FREE]


def one():
    rev = rng.random() < 0.5
    if rev:
        t = gen("1", "1", rng.choice([2, 3, 3, 4]), True)
        if rng.random() < 0.6:
            x, y = rng.choice("mn"), rng.choice("mn")
            inner = gen(x, y, rng.choice([2, 3, 3]), True)
            t = rng.choice([f"Sigma({inner})", f"(Sigma({inner}) * {leaf('1', '1', True)})", f"MatrixFrobeniusNorm({inner})", f"Sigma({inner} ^ {leaf(x, y, True)})", f"({scalar()} * Sigma({inner}))", f"(transpose(vec({inner})) * vec({leaf(x, y, True)}))"])
    else:
        t = gen(rng.choice("mn1"), rng.choice("mn1"), rng.choice([2, 3, 3, 4]), False)
    if not 14 <= len(t) <= 230 or "K.V_" not in t or t.count("MatrixExp") > 1 or t.count("pow<") > 2 or t.startswith("K."):
        return None
    return t, rev


# of a large sample, take the formulas that contribute the rarest constructs not yet present
pool = []
while len(pool) < 60 * count:
    x = one()
    if x and x not in pool:
        pool.append(x)
weight = {(c, r): 1 / max(1, sum(c in t for t, rv in pool if rv == r)) for c in CONS for r in (True, False)}
missing = set(weight)
shapes = []
while len(shapes) < count:
    best = max(pool, key=lambda x: sum(weight[c, x[1]] for c in CONS if (c, x[1]) in missing and c in x[0])) if len(shapes) % 3 < 2 else pool[rng.randrange(len(pool))]
    pool.remove(best)
    shapes.append(best)
    missing -= {(c, best[1]) for c in CONS if c in best[0]}

per = (len(shapes) + nfiles - 1) // nfiles
for f in range(nfiles):
    L = ['#include "matrix_prog.hpp"', "namespace mp {"]
    for k, (t, rev) in list(enumerate(shapes))[f * per:(f + 1) * per]:
        L.append(f"static Matrix<Expression>* msl_{k}(LibCtx& K, size_t m, size_t n, int st) {{\n  return make({t.replace('pow<', '::pow<')}, st);\n}}")
        L.append(f"static RM msr_{k}(RefCtx& K, size_t m, size_t n) {{\n  return {t.replace('pow<', 'mp::pow<')};\n}}")
        L.append(f'static MShapeReg msreg_{k}({k}, "{t}", {"true" if rev else "false"}, {"true" if any(x in t for x in ("inv(", "det(", "%")) else "false"}, msl_{k}, msr_{k});')
    L.append("}")
    p = os.path.join(out, f"mshapes_{f}.cpp")
    txt = "\n".join(L) + "\n"
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)
