"""compile /repo sources to LLVM IR (with DWARF names), cached per content hash in a scratch dir"""
import os, subprocess, hashlib, sys
REPO = os.environ.get("VCG_REPO", "/repo")
FLAGS = ("-DENABLE_GLCACHE=1 -DINCLUDE_PRIV=1 -DLOGLEVEL=7 -DOS_LINUX -DSUPPORT_ZSTD_TRACE=1 -DUSE_HUGEPAGE=1 -DNDEBUG "
         "-I/usr/include/glib-2.0 -I/usr/lib/x86_64-linux-gnu/glib-2.0/include").split()
def incs():
    r = REPO
    return ["-I%s/include" % r, "-I%s/libCacheSim" % r, "-I%s/libCacheSim/cache/eviction" % r, "-I%s/libCacheSim/include" % r, "-I%s/libCacheSim/dataStructure" % r,
            "-I%s/libCacheSim/cache/admission" % r, "-I%s/libCacheSim/cache/prefetch" % r]
def ll(rel, outdir, extra=()):
    src = rel if rel.startswith("/") else os.path.join(REPO, "libCacheSim", rel)
    out = os.path.join(outdir, rel.replace("/", "_") + ".ll")
    if os.path.exists(out): return out      # compiled earlier in this run (scratch directory of the run)
    std = ["-std=c++17"] if src.endswith((".cpp", ".cc", ".hpp")) else ["-std=gnu11"]
    cc = "clang++" if src.endswith((".cpp", ".cc")) else "clang"
    cmd = [cc] + std + FLAGS + incs() + list(extra) + ["-g", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-emit-llvm", "-S", "-w", src, "-o", out + ".%d.tmp" % os.getpid()]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise RuntimeError("clang failed on %s:\n%s" % (rel, r.stderr[:2000]))
    os.replace(out + ".%d.tmp" % os.getpid(), out)
    return out
