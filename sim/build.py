#!/usr/bin/env python3
"""Build the code under test from the current working tree of /repo, instrumented, plus the simulator.

Everything is written below one scratch directory; /repo is only read.  Codec tables come from the
repository's own table compiler, modules and library from the repository's own sources.
"""
import os, sys, subprocess, glob, hashlib, shutil, tarfile, concurrent.futures as cf

REPO = os.environ.get("SIM_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
COV = ["-fsanitize-coverage=trace-pc"]
BASE = ["-g1", "-O1", "-w", "-U_FORTIFY_SOURCE", "-D_BSDCONV_INTERNAL",
        '-DPREFIX="/nonexistent"', '-DBSDCONV_PATH="/nonexistent"']


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(REPO, "src"), os.path.join(REPO, "modules"), HERE):
        for d, _, fs in os.walk(base):
            if "__pycache__" in d:
                continue
            files += [os.path.join(d, f) for f in fs]
    files.append(os.path.join(REPO, "Makefile"))
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fp:
            h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()[:20]


def run(cmd, cwd=None, quiet=True):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), p.stdout.decode("utf8", "replace")[-4000:]))
        raise SystemExit(3)
    return p.stdout


def dictionary(src, out):
    """Sample of the entries of every module table: workload material (never an oracle)."""
    o = []
    for kind, tag in (("from", "F"), ("inter", "I"), ("to", "T")):
        for t in sorted(glob.glob(os.path.join(src, "modules", kind, "*.txt"))):
            name = os.path.basename(t)[:-4]
            rows = []
            with open(t, errors="replace") as fp:
                for ln in fp:
                    if ln.startswith("#"):
                        continue
                    w = ln.split("#")[0].split()
                    if len(w) < 2 or "*" in w[0] or any(c not in "0123456789ABCDEFabcdef,!" for c in w[0]):
                        continue
                    rows.append((w[0].lstrip("!"), w[1]))
            o.append("M %s %s - -" % (tag, name))
            n = 160
            if len(rows) > n:
                long_ = sorted(rows, key=lambda r: -len(r[0]))[:30]
                rows = rows[:20] + long_ + [rows[(i * len(rows)) // (n - 50)] for i in range(n - 50)]
            for a, b in rows:
                if len(a) < 200 and len(b) < 200:
                    o.append("%s %s %s %s" % (tag, name, a, b))
    for kind in ("filter", "scorer"):
        for t in sorted(glob.glob(os.path.join(out, "root/share/bsdconv", kind, "*.so"))):
            o.append("M %s %s - -" % ("FL" if kind == "filter" else "SC", os.path.basename(t)[:-3]))
    for kind in ("from", "inter", "to", "filter"):
        p = os.path.join(src, "modules", kind, "alias")
        for ln in open(p):
            w = ln.split("#")[0].split() if ln.startswith("#") else ln.split()
            if len(w) == 2:
                o.append("A %s %s %s" % (kind, w[0], w[1]))
    with open(os.path.join(out, "dict.txt"), "w") as fp:
        fp.write("\n".join(o) + "\n")


def build(out):
    """Returns the build directory (cached by content when SIM_CACHE is set)."""
    os.makedirs(out, exist_ok=True)
    src = os.path.join(out, "tree")
    os.makedirs(src)
    for d in ("src", "modules"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(src, d))
    with tarfile.open(os.path.join(HERE, "ref.tar.xz")) as t:
        t.extractall(out, filter="data")
    root = os.path.join(out, "root")
    share = os.path.join(root, "share/bsdconv")
    for d in ("from", "inter", "to", "filter", "scorer"):
        os.makedirs(os.path.join(share, d))
        a = os.path.join(src, "modules", d, "alias")
        if os.path.exists(a):
            shutil.copy(a, os.path.join(share, d, "alias"))
    lib = os.path.join(out, "lib")
    os.makedirs(lib)
    ex = cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8)
    cc = ["gcc"]
    # stage 1: table compiler (plain), library (instrumented)
    mk = os.path.join(out, "mktable")
    libso = os.path.join(lib, "libbsdconv.so")
    s = os.path.join(src, "src")
    f1 = ex.submit(run, cc + BASE + ["-DUSE_FMALLOC", s + "/libfmalloc.c", s + "/bsdconv-mktable.c", "-o", mk])
    f2 = ex.submit(run, cc + BASE + SAN + COV + ["-fPIC", "-shared", "-Wl,-z,now", s + "/libbsdconv.c", "-o", libso, "-ldl"])
    objs = []
    futs = []
    for c in sorted(glob.glob(os.path.join(HERE, "*.cpp"))):
        o = os.path.join(out, os.path.basename(c)[:-4] + ".o")
        objs.append(o)
        futs.append(ex.submit(run, ["g++", "-std=c++17", "-g1", "-O1", "-Wall", "-Wno-unused-function", "-U_FORTIFY_SOURCE",
                                    "-fsanitize=address", "-fpermissive", "-I", s, "-c", c, "-o", o]))
    f1.result(); f2.result()
    # stage 2: modules, tables, command line tools as shared objects driven by the simulator
    for kind in ("from", "inter", "to", "filter", "scorer"):
        for c in sorted(glob.glob(os.path.join(src, "modules", kind, "*.c"))):
            n = os.path.basename(c)[:-2]
            if n.lower() == n:      # shared include files (e.g. unicode_range.c) are not modules
                continue
            if kind in ("from", "inter", "to") and not os.path.exists(c[:-2] + ".txt"):
                continue
            if kind in ("filter", "scorer") and "cb" not in open(c).read() and "#include" not in open(c).read():
                continue
            futs.append(ex.submit(run, cc + BASE + SAN + COV + ["-fPIC", "-shared", "-Wl,-z,now", c, "-o",
                        os.path.join(share, kind, n + ".so"), "-L" + lib, "-lbsdconv", "-ldl"]))
    tabs = sorted([f for k in ("from", "inter", "to") for f in glob.glob(os.path.join(src, "modules", k, "*.txt"))], key=lambda f: -os.path.getsize(f))
    for t in tabs:
        kind = os.path.basename(os.path.dirname(t))
        n = os.path.basename(t)[:-4]
        futs.append(ex.submit(run, [mk, t, os.path.join(share, kind, n)]))
    futs.append(ex.submit(run, cc + BASE + SAN + COV + ["-fPIC", "-shared", "-Wl,-z,now", "-Dmain=cli_main", s + "/bsdconv.c", "-o",
                lib + "/libcli.so", "-L" + lib, "-lbsdconv"]))
    futs.append(ex.submit(run, cc + BASE + SAN + COV + ["-fPIC", "-shared", "-Wl,-z,now", "-Dmain=completion_main", s + "/bsdconv-completion.c", "-o",
                lib + "/libcompletion.so", "-L" + lib, "-lbsdconv"]))
    futs.append(ex.submit(run, cc + BASE + SAN + COV + ["-fPIC", "-shared", "-Wl,-z,now", "-Dmain=man_main", s + "/bsdconv-man.c", "-o",
                lib + "/libman.so", "-L" + lib, "-lbsdconv"]))
    futs.append(ex.submit(run, cc + BASE + SAN + COV + ["-fPIC", "-shared", "-Wl,-z,now", "-Dmain=mktable_main", "-DUSE_FMALLOC",
                s + "/libfmalloc.c", s + "/bsdconv-mktable.c", "-o", lib + "/libmktable.so"]))
    for f in futs:
        f.result()
    dictionary(src, out)
    run(["g++", "-fsanitize=address", "-rdynamic"] + objs + ["-o", os.path.join(out, "sim"), "-L" + lib, "-lbsdconv",
         "-Wl,-rpath," + lib, "-ldl", "-lpthread"])
    return out


if __name__ == "__main__":
    print(build(sys.argv[1]))
