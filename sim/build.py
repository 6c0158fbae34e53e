#!/usr/bin/env python3
"""Builds the simulator from the current working tree of /repo into /verif/build (git-ignored).
Only the project's own sources decide the target objects; object files are cached by content hash."""
import hashlib, os, re, subprocess, sys, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
os.environ["LC_ALL"] = "C"
TCF = "-std=gnu11 -O2 -g1 -fno-pie -fstack-protector-strong -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-builtin-malloc -fno-builtin-calloc -fno-builtin-realloc -fsanitize-coverage=trace-pc -w -DHAVE_CONFIG_H".split()
# the second build, for P26: every access is checked (runtime in san_rt.cc), local variables start with a pattern
SANLIB = "memcpy memmove memset memcmp strcpy stpcpy strncpy strcat strncat strlen strcmp strncmp strstr strchr strrchr strtod strtol fread fwrite fputs puts fgets qsort printf fprintf sprintf snprintf vfprintf vsprintf vsnprintf".split()
SANF = "-fsanitize=kernel-address --param asan-stack=1 --param asan-globals=1 --param asan-instrumentation-with-call-threshold=1000000 -fasan-shadow-offset=0x100000000000 -ftrivial-auto-var-init=pattern".split() + ["-fno-builtin-" + x for x in SANLIB]
# -O2 without fused multiply-add or fast-math: the same IEEE double results as the shipped -O3 build on x86-64
CXF = "-std=c++17 -O2 -g1 -fno-pie -Wall -Wextra -Wno-unused-parameter -Wno-missing-field-initializers -Wno-misleading-indentation".split()

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write("build failed: %s\n%s\n" % (" ".join(cmd)[:300], r.stdout[:4000])); sys.stderr.flush(); os._exit(2)
    return r.stdout
def rd(p): return open(p, "rb").read()
def sha(b): return hashlib.sha256(b).hexdigest()

def make_vars(path):
    txt = open(path, errors="replace").read().replace("\\\n", " ")
    v = {}
    for m in re.finditer(r"(?m)^([A-Za-z_0-9]+)\s*=\s*(.*)$", txt): v[m.group(1)] = m.group(2)
    def exp(s, d=0):
        return re.sub(r"\$\((\w+)\)", lambda m: exp(v.get(m.group(1), ""), d + 1) if d < 8 else "", s)
    return {k: exp(x).split() for k, x in v.items()}

# hashes of the generated parsers and their sources at the pinned commit (same rule as /opt/vp/build.sh:
# the committed C is used unless only its .y or .l source was edited)
BASE = dict(l.split()[::-1] for l in open(os.path.join(HERE, "generated.sha256")) if l.strip())
def gen(src, outs, tmp):
    ch = lambda f: sha(rd(os.path.join(REPO, f))) != BASE.get(f)
    res = {o: os.path.join(REPO, o) for o in outs}
    if ch(src) and not any(ch(o) for o in outs):
        d = os.path.join(tmp, os.path.dirname(src)); os.makedirs(d, exist_ok=True)
        o = os.path.join(tmp, outs[0])
        if src.endswith(".y"): sh(["bison", "-y", "-d", "-o", o, os.path.join(REPO, src)])
        else: sh(["flex", "-o", o, os.path.join(REPO, src)])
        res = {x: os.path.join(tmp, x) for x in outs}
    return res

def main():
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    odir = os.path.join(OUT, "obj"); os.makedirs(odir, exist_ok=True)
    gtmp = os.path.join(OUT, "gen"); shutil.rmtree(gtmp, ignore_errors=True); os.makedirs(gtmp)
    src = os.path.join(REPO, "src")
    g = {}
    for s, o in (("src/mdp/parser.y", ["src/mdp/parser.c", "src/mdp/parser.h"]), ("src/mdp/scanner.l", ["src/mdp/scanner.c"]),
                 ("src/lp-solve/lp.y", ["src/lp-solve/lp.c", "src/lp-solve/lp.h"]), ("src/lp-solve/lex.l", ["src/lp-solve/lex.c"])):
        g.update(gen(s, o, gtmp))
    inc = ["-I" + REPO, "-I" + src, "-I" + src + "/mdp", "-I" + src + "/lp-solve", "-I" + src + "/laspack"]
    if any(not p.startswith(REPO) for p in g.values()): inc = ["-I" + gtmp + "/src/mdp", "-I" + gtmp + "/src/lp-solve"] + inc
    files = []
    top = make_vars(src + "/Makefile.am")
    names = []
    for k in ("POMDP_SOLVE_SRC", "POMDP_TOOLS_SRC"):
        for f in top[k]:
            if f.endswith(".c") and f not in names: names.append(f)
    files += [os.path.join(src, f) for f in names]
    for sub, var in (("mdp", "COMMON_SRC"), ("lp-solve", "LP_SOLVE_SRC"), ("laspack", "LASPACK_SRCS")):
        for f in make_vars(os.path.join(src, sub, "Makefile.am"))[var]:
            rel = "src/%s/%s" % (sub, f)
            if f.endswith(".y") or f.endswith(".l"): rel = rel[:-2] + ".c"
            if rel.endswith(".c"): files.append(g.get(rel, os.path.join(REPO, rel)))
    files = list(dict.fromkeys(files))
    def group(f):
        for sub in ("mdp", "lp-solve", "laspack"):
            if os.path.basename(os.path.dirname(f)) == sub: return sub
        return ""
    hdr = hashlib.sha256()
    for root, _, fs in sorted(os.walk(src)):
        for f in sorted(fs):
            if f.endswith(".h"): hdr.update(f.encode() + rd(os.path.join(root, f)))
    for p in sorted(g.values()):
        if p.endswith(".h"): hdr.update(rd(p))
    hdr.update(rd(os.path.join(REPO, "config.h"))); hdr.update(" ".join(TCF).encode())
    seams = open(os.path.join(HERE, "seams.txt")).read().split()
    pairs = [("__assert_fail", "sim_assert_fail"), ("__stack_chk_fail", "sim_stack_chk_fail")]
    for x in ("fopen64", "open64", "__sysv_signal", "bsd_signal", "__strdup"): pairs.append((x, "simx_" + x.strip("_")))
    pairs += [(x, "sim_" + x) for x in seams]
    rf = os.path.join(OUT, "redef.txt"); txt = "".join("%s %s\n" % p for p in pairs)
    if not os.path.exists(rf) or open(rf).read() != txt: open(rf, "w").write(txt)
    redef = ["--redefine-syms=" + rf]
    rs = os.path.join(OUT, "redef-san.txt"); stxt = txt + "".join("%s san_%s\n" % (x, x) for x in SANLIB) + "".join("__isoc99_%s san_%s\n" % (x, x) for x in ("fscanf", "sscanf", "scanf"))
    if not os.path.exists(rs) or open(rs).read() != stxt: open(rs, "w").write(stxt)
    hdr.update(txt.encode() + b"lpseam 3")
    H = hdr.hexdigest()
    def cc(f, san=False):
        key = sha(rd(f) + H.encode() + f.encode() + ((" ".join(SANF) + stxt).encode() if san else b""))[:24]
        o = os.path.join(odir, os.path.basename(f)[:-2] + "-" + key + ".o")
        if not os.path.exists(o):
            t = o + ".tmp%d.o" % os.getpid()
            sh(["gcc", *TCF, *(SANF if san else []), *inc, "-c", f, "-o", t])
            ren = ["--redefine-syms=" + rs] if san else list(redef)
            if f.endswith("/src/main.c"): ren += ["--redefine-sym", "main=solve_main"]
            elif f.endswith("/src/pomdp-tools-main.c"): ren += ["--redefine-sym", "main=tools_main"]
            elif f == os.path.join(src, "lp-interface.c"): ren += ["--redefine-sym", "solve=sim_lp_solve"]
            if group(f) == "laspack": ren += ["--rename-section", ".text=laspack_text", "--rename-section", ".text.unlikely=laspack_text"]
            sh(["objcopy", *ren, t]); os.rename(t, o)
        return o
    def lpseam(): # optional: without it a loss of precision in the LP solver cannot be told from other wrong results
        f = os.path.join(HERE, "lpseam.c"); key = sha(rd(f) + H.encode())[:24]; o = os.path.join(odir, "lpseam-" + key + ".o")
        if not os.path.exists(o):
            t = o + ".tmp%d.o" % os.getpid(); c = ["gcc", *[x for x in TCF if "coverage" not in x], *inc, "-c", f, "-o", t]
            sh(c); os.rename(t, o)
        return o
    def rt():
        f = os.path.join(HERE, "san_rt.cc"); key = sha(rd(f) + " ".join(CXF).encode())[:24]; o = os.path.join(odir, "san_rt-" + key + ".o")
        if not os.path.exists(o):
            t = o + ".tmp%d.o" % os.getpid(); sh(["g++", *CXF, "-fno-builtin", "-c", f, "-o", t]); os.rename(t, o)
        return o
    sims = sorted(f for f in os.listdir(HERE) if f.endswith(".cpp"))
    hh = sha(b"".join(rd(os.path.join(HERE, f)) for f in sorted(os.listdir(HERE)) if f.endswith((".h", ".inc"))) + " ".join(CXF).encode())
    def cx(f):
        f = os.path.join(HERE, f); key = sha(rd(f) + hh.encode())[:24]
        o = os.path.join(odir, os.path.basename(f)[:-4] + "-" + key + ".o")
        if not os.path.exists(o):
            t = o + ".tmp%d.o" % os.getpid(); sh(["g++", *CXF, "-c", f, "-o", t]); os.rename(t, o)
        return o
    def link(exe, sobj, tobj):
        objs = sobj + list(tobj.values())
        key = sha("\n".join(objs).encode())[:24]
        stamp = exe + ".key"
        if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key):
            t = exe + ".tmp"; libs = []  # the sub-directories are archives in the real build too, so unreferenced members stay out
            for sub in ("mdp", "lp-solve", "laspack"):
                lib = os.path.join(OUT, "lib%s.a" % sub)
                if os.path.exists(lib): os.unlink(lib)
                sh(["ar", "rcs", lib, *[o for f, o in tobj.items() if group(f) == sub]]); libs.append(lib)
            sh(["g++", "-static", "-no-pie", "-o", t, *sobj, *[o for f, o in tobj.items() if group(f) == ""], *libs, "-lm", "-lpthread"])
            if os.path.exists(stamp): os.unlink(stamp)
            os.rename(t, exe); open(stamp, "w").write(key)
        keep.update(objs)
        return stamp
    keep = set(); want_san = "san" in sys.argv[1:]
    with ThreadPoolExecutor(8) as ex:
        a = [ex.submit(cx, f) for f in sims]; b = [ex.submit(cc, f) for f in files]
        d = [ex.submit(cc, f, True) for f in files] if want_san else []; e = ex.submit(rt) if want_san else None
        sobj = [x.result() for x in a] + [lpseam()]; tobj = {f: x.result() for f, x in zip(files, b)}
        exe = os.path.join(OUT, "psim"); stamp = link(exe, sobj, tobj)
        if want_san: exe = os.path.join(OUT, "psim-san"); link(exe, sobj + [e.result()], {f: x.result() for f, x in zip(files, d)})
    for f in os.listdir(odir):
        p = os.path.join(odir, f)
        if p not in keep and os.path.getmtime(p) < os.path.getmtime(stamp) - 86400: os.unlink(p)
    print(exe)
if __name__ == "__main__": main()
