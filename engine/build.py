"""Builds, from /repo's current working tree: the native library the harnesses link (ASan), the harnesses,
and the LLVM IR dumps the proofs work on. Everything goes to /verif/build (git-ignored)."""
import os, glob, subprocess, sys, re, fcntl, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CONFIG_H = """#ifndef PDFMM_CONFIG_H
#define PDFMM_CONFIG_H
#define PDFMM_VERSION_MAJOR 0
#define PDFMM_VERSION_MINOR 10
#define PDFMM_VERSION_PATCH 0
#define PDFMM_HAVE_JPEG_LIB
#define PDFMM_HAVE_PNG_LIB
#define PDFMM_HAVE_TIFF_LIB
#define PDFMM_HAVE_FONTCONFIG
#define PDFMM_HAVE_LIBIDN
#endif
"""
INC = "-I{b}/cfg -I{r}/src -I{r}/3rdparty -I/usr/include/freetype2 -I/usr/include/libxml2"
DEFS = "-DNDEBUG -DHAS_UNCAUGHT_EXCEPTIONS=1 -DPDFMM_STATIC"
NATFLAGS = "-std=gnu++17 -O1 -g1 -w -fsanitize=address -fno-omit-frame-pointer"
LIBS = "-lfreetype -lfontconfig -lxml2 -ljpeg -lpng -ltiff -lz -lssl -lcrypto -lidn"

def sources():
    out = []
    for d in ("base", "private", "common", "contrib"):
        out += sorted(glob.glob(os.path.join(REPO, "src/pdfmm", d, "**", "*.cpp"), recursive=True))
    out += sorted(glob.glob(os.path.join(REPO, "3rdparty/pdfium/**/*.cpp"), recursive=True))
    return out
def oname(src): return os.path.relpath(src, REPO).replace("/", "__")

def write_if_changed(p, t):
    try:
        if open(p).read() == t: return
    except OSError: pass
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f: f.write(t)

def gen():
    os.makedirs(BUILD, exist_ok=True)
    write_if_changed(BUILD + "/cfg/pdfmm_config.h", CONFIG_H)
    inc = INC.format(b=BUILD, r=REPO)
    L = ["ninja_required_version = 1.5", "builddir = " + BUILD]
    L += ["rule cxx", "  command = g++ %s %s %s -MMD -MF $out.d -c $in -o $out" % (NATFLAGS, DEFS, inc), "  depfile = $out.d", "  deps = gcc"]
    L += ["rule hcxx", "  command = g++ %s -fno-access-control %s %s -I%s/native -MMD -MF $out.d -c $in -o $out" % (NATFLAGS, DEFS, inc, VERIF), "  depfile = $out.d", "  deps = gcc"]
    L += ["rule ar", "  command = rm -f $out && ar rcs $out $in"]
    L += ["rule link", "  command = g++ -fsanitize=address $in -o $out %s" % LIBS]
    L += ["rule bc", "  command = clang++-18 -std=gnu++17 -O1 -Xclang -disable-llvm-passes -g -fstandalone-debug -w -fPIC -DCHARCONV_COMPAT_H -include charconv %s %s -MMD -MF $out.d -c -emit-llvm $in -o $out.t && opt-18 -passes='function(sroa,early-cse,simplifycfg)' $out.t -o $out && rm -f $out.t" % (DEFS, inc), "  depfile = $out.d", "  deps = gcc"]
    L += ["rule irlink", "  command = llvm-link-18 $in -o $out.bc && %s/irdump $out.bc $out && rm -f $out.bc" % BUILD]
    L += ["rule tool", "  command = clang++-18 -O1 -fno-rtti -I/usr/lib/llvm-18/include -std=c++17 $in -o $out -L/usr/lib/llvm-18/lib -lLLVM-18"]
    L += ["build %s/irdump: tool %s/engine/irdump.cpp" % (BUILD, VERIF)]
    objs = []
    for s in sources():
        o = "%s/nat/%s.o" % (BUILD, oname(s)); objs.append(o)
        L.append("build %s: cxx %s" % (o, s))
        L.append("build %s/bc/%s.bc: bc %s" % (BUILD, oname(s), s))
    L.append("build %s/libpdfmm_v.a: ar %s" % (BUILD, " ".join(objs)))
    for h in sorted(glob.glob(VERIF + "/native/*.cpp")):
        n = os.path.basename(h)[:-4]
        L.append("build %s/nat/h_%s.o: hcxx %s" % (BUILD, n, h))
        L.append("build %s/h_%s: link %s/nat/h_%s.o %s/libpdfmm_v.a" % (BUILD, n, BUILD, n, BUILD))
    for f in sorted(glob.glob(VERIF + "/contracts/[A-Z][0-9]*.py")):
        n = os.path.basename(f)[:-3]
        m = re.search(r"^TUS\s*=\s*\[(.*?)\]", open(f).read(), re.S | re.M)
        if not m: continue
        tus = re.findall(r"[\"']([^\"']+)[\"']", m.group(1))
        bcs = []
        for t in tus:
            if t.startswith("@"): # driver TU of ours (instantiates templates, pulls in inline functions): no code under proof
                d = "%s/contracts/%s" % (VERIF, t[1:]); o = "%s/bc/drv_%s.bc" % (BUILD, t[1:].replace("/", "__"))
                L.append("build %s: bc %s" % (o, d)); bcs.append(o)
            else: bcs.append("%s/bc/src__pdfmm__%s.bc" % (BUILD, t.replace("/", "__")))
        L.append("build %s/ir/%s.json: irlink %s | %s/irdump" % (BUILD, n, " ".join(bcs), BUILD))
    seen = set(); out = []
    for l in L:
        if l.startswith("build "):
            k = l.split(":")[0]
            if k in seen: continue
            seen.add(k)
        out.append(l)
    write_if_changed(BUILD + "/build.ninja", "\n".join(out) + "\n")

def ninja(targets, log=None):
    """Returns (ok, output)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        gen()
        p = subprocess.run(["ninja", "-k", "0", "-f", BUILD + "/build.ninja"] + targets, cwd=BUILD, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout

if __name__ == "__main__":
    t = sys.argv[1:]
    if t == ["all"]:
        gen()
        t = ["%s/h_%s" % (BUILD, os.path.basename(h)[:-4]) for h in glob.glob(VERIF + "/native/*.cpp")]
        t += ["%s/ir/%s.json" % (BUILD, os.path.basename(f)[:-3]) for f in glob.glob(VERIF + "/contracts/[A-Z][0-9]*.py")]
        t += [BUILD + "/libpdfmm_v.a"]
    ok, out = ninja(t)
    sys.stdout.write(out[-3000:])
    sys.exit(0 if ok else 1)
