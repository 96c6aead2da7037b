#!/usr/bin/env python3
"""Build the harness binaries from the sources in /repo's working tree.
usage: build.py TARGET...   TARGET = scalar-dreal, matrix-dcplx, ... (see TARGETS)"""
import glob, os, shutil, subprocess, sys

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VP_REPO", "/repo")
B = os.environ.get("VP_BUILD", os.path.join(V, "build"))
H = os.path.join(V, "h")

CONFIGS = {
    "dreal": "-DCOOLDIFF_SCALAR_TYPE=2",
    "dcplx": "-DCOOLDIFF_SCALAR_TYPE=2 -DUSE_COMPLEX_MATH",
    "freal": "-DCOOLDIFF_SCALAR_TYPE=1",
    "fcplx": "-DCOOLDIFF_SCALAR_TYPE=1 -DUSE_COMPLEX_MATH",
}
BASE = "-std=c++17 -fpermissive -w -include utility -DUSE_DYNAMIC_ASSERTIONS -DUSE_VIRTUAL_FUNCTIONS -pthread"


def includes():
    ds = []
    for d, sub, files in os.walk(os.path.join(R, "include")):
        if "GPUMemoryStrategy" in d:
            continue
        ds.append(d)
    return " ".join("-I" + d for d in sorted(ds)) + " -isystem /usr/include/eigen3 -I" + H


def lib_sources():
    out = []
    for d, sub, files in os.walk(os.path.join(R, "src")):
        for f in files:
            if f.endswith(".cpp"):
                out.append(os.path.join(d, f))
    return sorted(out)


def shape_files(seed, cfg, count, nfiles, salt=0):
    """regenerate the statically nested expressions for this seed and configuration"""
    out = os.path.join(B, "gen", f"{cfg}")
    shutil.rmtree(out, ignore_errors=True) if salt or not os.path.isdir(out) or len(glob.glob(out + "/*")) != nfiles else None
    s = seed * 16 + list(CONFIGS).index(cfg) + 1000 * salt
    subprocess.run([sys.executable, os.path.join(V, "gen_shapes.py"), str(s), str(count), str(nfiles), out], check=True)
    return sorted(glob.glob(os.path.join(out, "shapes_*.cpp")))


def mshape_files(seed, cfg, count, nfiles, salt=0):
    out = os.path.join(B, "gen", f"{cfg}-m")
    shutil.rmtree(out, ignore_errors=True) if salt or not os.path.isdir(out) or len(glob.glob(out + "/*")) != nfiles else None
    s = seed * 16 + list(CONFIGS).index(cfg) + 1000 * salt
    subprocess.run([sys.executable, os.path.join(V, "gen_mshapes.py"), str(s), str(count), str(nfiles), out, "1" if "cplx" in cfg else "0"], check=True)
    return sorted(glob.glob(os.path.join(out, "mshapes_*.cpp")))


def plan(targets, seed, shapes=36, salt=0):
    """targets: list of (kind, cfg, variant) -> (ninja text, {target: binary})"""
    L = [f"inc = {includes()}", "rule cxx",
         "  command = g++ $opt $base $def $inc -MMD -MF $out.d -c $in -o $out",
         "  depfile = $out.d", "  deps = gcc",
         "rule link", "  command = g++ $lopt -pthread $in -o $out", ""]
    bins, seen = {}, set()

    def obj(src, cfg, var, opt, name, extra=""):
        o = os.path.join(B, "obj", f"{cfg}-{var}", name + ".o")
        if o not in seen:
            seen.add(o)
            san = "-fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS" if var == "asan" else ""
            L.append(f"build {o}: cxx {src}\n  opt = {opt} {san}\n  base = {BASE}\n  def = {CONFIGS[cfg]} -DCONFIG_NAME={cfg}_{var} {extra}\n")
        return o

    for kind, cfg, var in targets:
        objs = []
        for s in lib_sources():
            objs.append(obj(s, cfg, var, "-O1 -g1", "lib_" + os.path.relpath(s, R).replace("/", "_")))
        kinds = {"scalar": ["scalar"], "scalarc": ["scalar", "scalarc"], "matrix": ["matrix", "scalar_ops"], "cont": ["cont"]}[kind]
        for k in kinds:
            for s in sorted(glob.glob(os.path.join(H, k + ("*.cpp" if k == "scalar_ops" else "_*.cpp")))):
                x = kind == "scalarc" and s.endswith("scalar_main.cpp")
                objs.append(obj(s, cfg, var, "-O0 -g1", ("x_" if x else "") + os.path.basename(s), "-DWITH_EXTRA" if x else ""))
        if kind == "scalar":
            for s in shape_files(seed, cfg, shapes, max(3, shapes // 12), salt):
                objs.append(obj(s, cfg, var, "-O0 -g1", os.path.basename(s)))
        if kind == "matrix":
            for s in mshape_files(seed, cfg, shapes, max(6, shapes // 6), salt):
                objs.append(obj(s, cfg, var, "-O0 -g1", os.path.basename(s)))
        b = os.path.join(B, f"{kind}-{cfg}-{var}")
        lopt = "-fsanitize=address,undefined" if var == "asan" else ""
        L.append(f"build {b}: link {' '.join(objs)}\n  lopt = {lopt}\n")
        bins[(kind, cfg, var)] = b
    return "\n".join(L) + "\n", bins


def build(targets, seed, tag="b", **kw):
    os.makedirs(B, exist_ok=True)
    text, bins = plan(targets, seed, **kw)
    nf = os.path.join(B, f"{tag}.ninja")
    open(nf, "w").write(text)
    r = subprocess.run(["ninja", "-f", nf, "-C", B, "-j", "8"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, r.stdout[-6000:]
    return bins, ""


if __name__ == "__main__":
    ts = []
    for a in sys.argv[1:]:
        p = a.split("-")
        ts.append((p[0], p[1], p[2] if len(p) > 2 else "std"))
    bins, err = build(ts, int(os.environ.get("VERIF_SEED", "1") or 1), tag="cli")
    if bins is None:
        print(err)
        sys.exit(2)
    print(bins)
