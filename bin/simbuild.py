import os, subprocess, sys
from buildcfg import *

def gen(bdir):
    os.makedirs(bdir, exist_ok=True)
    o = []
    o.append("ninja_required_version = 1.5\n")
    for f, fl in (("thr", THR), ("io", IO), ("plain", PLAIN)):
        o.append(f"rule cc_{f}\n  command = g++ {fl} $extra -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC({f}) $in\n")
    o.append(f"rule link_thr\n  command = g++ -rdynamic $in -o $out {LIBS}\n  description = LINK $out\n")
    o.append(f"rule link_io\n  command = g++ -rdynamic -fsanitize=address,undefined $in -o $out {LIBS}\n  description = LINK $out\n")
    o.append(f"build {bdir}/core.plain.o: cc_plain {V}/sim/core.cpp\n")
    o.append(f"build {bdir}/rt.plain.o: cc_plain {V}/sim/rt.cpp\n  extra = -fno-builtin -fno-threadsafe-statics\n")
    o.append(f"build {bdir}/core.io.o: cc_plain {V}/sim/core.cpp\n  extra = -DSIM_ASAN\n")
    if os.path.exists(f"{V}/sim/io.cpp"):
        o.append(f"build {bdir}/io.io.o: cc_plain {V}/sim/io.cpp\n  extra = -DSIM_ASAN\n")
    seen = set()
    for b, spec in BINARIES.items():
        fl, hs, rs = spec[:3]
        objs = []
        for base, lst in ((V, hs), (REPO, rs)):
            for s in lst:
                ob = f"{bdir}/{'r' if base == REPO else 'h'}_{s.replace('/', '_')}.{fl}.o"
                objs.append(ob)
                if ob not in seen:
                    seen.add(ob)
                    d = os.path.dirname(s)
                    o.append(f"build {ob}: cc_{fl} {base}/{s}\n  extra = -I{base}/{d}\n")
        if fl == "thr":
            objs += [f"{bdir}/core.plain.o", f"{bdir}/rt.plain.o"]
        else:
            objs += [f"{bdir}/core.io.o", f"{bdir}/io.io.o"]
        o.append(f"build {bdir}/{b}: link_{fl} {' '.join(objs)}\n")
    txt = "\n".join(o)
    p = f"{bdir}/build.ninja"
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)

def build(bdir, names):
    gen(bdir)
    r = subprocess.run(["ninja", "-C", bdir, "-f", f"{bdir}/build.ninja"] + [f"{bdir}/{n}" for n in names], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

if __name__ == "__main__":
    rc, out = build(f"{V}/build", sys.argv[1:] or list(BINARIES))
    print(out[-6000:])
    sys.exit(rc)
