#!/usr/bin/env python3
"""Builds the simulator from /repo's current tree: every Dictu object has its external symbols redirected to the simulator.
Usage: build.py [REPO] -> prints path of the executable. Cached by content hash under /verif/build."""
import hashlib, os, re, subprocess, sys, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CFLAGS = "-std=gnu11 -g -O1 -fno-omit-frame-pointer -fsanitize=address -fno-pie -w -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -DDEBUG -DDEBUG_FINAL_MEM -DINCLUDE_SQLITE_LIB -DUSE_UTF8".split()
SIMC = ["core.c", "fs.c", "proc.c", "net.c", "misc.c", "curlstub.c", "sqlvfs.c", "gcctl.c"]

class BuildError(Exception):
    pass

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
    return r.stdout

def sources(repo):
    out = []
    for d, dirs, fs in os.walk(os.path.join(repo, "src")):
        dirs.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            if not f.endswith(".c"):
                continue
            rel = os.path.relpath(p, repo)
            if rel.startswith("src/cli/"):
                if f in ("main.c", "argparse.c", "linenoise.c", "stringbuf.c", "utf8.c"):
                    if f == "argparse.c":
                        out.append(rel)   # picked up by the library glob
                    else:
                        out.append(rel)
                elif f != "linenoise-win32.c":
                    out.append(rel)
                continue
            if re.search(r"(main|stringbuf|linenoise(-win32)?|utf8)\.c$", rel):
                continue
            if f == "sqlite3.c":
                continue
            out.append(rel)
    return out

def tree_hash(repo):
    h = hashlib.sha256()
    files = []
    for d, dirs, fs in os.walk(os.path.join(repo, "src")):
        dirs.sort()
        for f in sorted(fs):
            if f.endswith((".c", ".h")):
                files.append(os.path.join(d, f))
    for f in files:
        h.update(os.path.relpath(f, repo).encode()); h.update(b"\0"); h.update(open(f, "rb").read())
    for f in sorted(os.listdir(HERE)):
        if f.endswith((".c", ".h")) or f == "build.py":
            h.update(f.encode()); h.update(open(os.path.join(HERE, f), "rb").read())
    return h.hexdigest()[:20]

PREEMPT = "-fsanitize-coverage=trace-pc"   # a call into the simulator at every basic block
def build(repo="/repo", variant=""):
    root = os.path.join(VERIF, "build")
    os.makedirs(root, exist_ok=True)
    key = tree_hash(repo) + variant
    out = os.path.join(root, key)
    exe = os.path.join(out, "sim")
    if os.path.exists(exe):
        return exe
    with open(os.path.join(root, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        # keep the cache small
        olds = sorted((os.path.getmtime(os.path.join(root, d)), d) for d in os.listdir(root) if os.path.isdir(os.path.join(root, d)))
        for _, d in olds[:-12]:
            shutil.rmtree(os.path.join(root, d), ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        inc = ["-I" + os.path.join(repo, "src"), "-I" + os.path.join(repo, "src/include")]
        jobs = []
        objs, sobjs = [], []
        for i, rel in enumerate(sources(repo)):
            o = os.path.join(tmp, "d%d_%s.o" % (i, os.path.basename(rel)[:-2]))
            extra = ["-Dmain=dictu_main"] if rel == "src/cli/main.c" else []
            if variant == "p": extra.append(PREEMPT)
            jobs.append(["gcc", *CFLAGS, *extra, *inc, "-c", os.path.join(repo, rel), "-o", o]); objs.append(o)
        for f in SIMC:
            o = os.path.join(tmp, "s_%s.o" % f[:-2])
            jobs.append(["gcc", *CFLAGS, "-Wno-error", *inc, "-I" + HERE, "-c", os.path.join(HERE, f), "-o", o]); sobjs.append(o)
        def comp(j):
            try:
                return sh(j)
            except BuildError:
                if os.path.join(HERE, "gcctl.c") in j:
                    return sh(j + ["-DNO_GC_CONTROL"])
                raise
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(comp, jobs))
        # symbols the simulator provides
        defs = set()
        reals = set()
        for o in sobjs:
            for l in sh(["nm", o]).splitlines():
                p = l.split()
                if len(p) == 3 and p[1] == "T" and p[2].startswith("__wrap_"):
                    defs.add(p[2][7:])
                if len(p) == 2 and p[0] == "U" and p[1].startswith("__real_"):
                    reals.add(p[1][7:])
        m = os.path.join(tmp, "wrap.map")
        mr = os.path.join(tmp, "wrap_noalloc.map")
        own = set()
        definers = {}
        for o in objs:
            for l in sh(["nm", "--defined-only", o]).splitlines():
                p = l.split()
                if len(p) == 3 and p[1] in "TDBR":
                    definers.setdefault(p[2], o)
        lines = [f"{s} __wrap_{s}" for s in sorted(defs) if s not in definers or s == "reallocate"]
        open(m, "w").write("\n".join(lines) + "\n")
        open(mr, "w").write("\n".join(l for l in lines if not l.startswith("reallocate ")) + "\n")
        rm = os.path.join(tmp, "real.map")
        open(rm, "w").write("".join(f"__real_{s} {s}\n" for s in sorted(reals)))
        jobs = []
        for o in objs:
            jobs.append(["objcopy", "--redefine-syms=" + (mr if definers.get("reallocate") == o else m), o])
        for o in sobjs:
            jobs.append(["objcopy", "--redefine-syms=" + rm, o])
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(sh, jobs))
        sh(["gcc", "-fsanitize=address", "-no-pie", "-g", "-o", os.path.join(tmp, "sim"), *sobjs, *objs,
            "-Wl,--as-needed", "-lsqlite3", "-luuid", "-lcurl", "-lm", "-ldl", "-lpthread"])
        if variant == "p":   # where the interpreter keeps writable data of the whole process
            names = set()
            for o in objs:
                if re.search(r"d\d+_(main|linenoise|stringbuf|utf8|argparse)\.o$", o): continue
                for l in sh(["nm", "-S", o]).splitlines():
                    q = l.split()
                    if len(q) == 4 and q[2] in "dDbB" and not q[3].startswith(("__odr_asan", ".L", "__")): names.add(q[3])
            with open(os.path.join(tmp, "watch"), "w") as w:
                for l in sh(["nm", "-S", os.path.join(tmp, "sim")]).splitlines():
                    q = l.split()
                    if len(q) == 4 and q[2] in "dDbB" and q[3] in names: w.write("%s %s\n" % (q[0], q[1]))
        for o in objs + sobjs:
            os.remove(o)
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
    return exe

if __name__ == "__main__":
    try:
        r = sys.argv[1] if len(sys.argv) > 1 else "/repo"
        print(build(r)); print(build(r, "p"))
    except BuildError as e:
        print(e, file=sys.stderr); sys.exit(3)
