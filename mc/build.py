"""Builds /repo's current working tree for the model checker.

build(variant) compiles every source file of /repo/src and the Python extension
(per file, object cache keyed by content) and links libnntile.so and
nntile_core.so against the model runtime mcstarpu (same soname as StarPU), and
assembles an importable copy of the Python package.

Variants: 'plain' (what the property checks run) and 'mon' (task bodies
instrumented for the access monitor, see mon.cc)."""
import os, sys, hashlib, glob, subprocess, shutil, fcntl, time, re
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("MC_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, ".build")
PY = "/opt/nntile-venv/bin/python"
STARPU_INC = "/usr/include/starpu/1.4"
EXCLUDE = ("src/kernel/fp16_to_fp32/cpu.cc", "src/kernel/fp32_to_fp16/cpu.cc")
NPROC = os.cpu_count() or 4


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])


def configure(text, defs):
    text = re.sub(r"@(\w+)@", lambda m: defs.get(m.group(1), ""), text)
    return re.sub(r"^#cmakedefine +(\w+).*$",
                  lambda m: "#define " + m.group(1) if defs.get(m.group(1)) else "/* #undef %s */" % m.group(1),
                  text, flags=re.M)


DEFS = {"NNTILE_USE_CBLAS": "1", "CBLAS_H_NAME": "cblas.h", "CBLAS_INT_TYPE": "int"}


def write_if_changed(path, data):
    if isinstance(data, str):
        data = data.encode()
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or read(path) != data:
        with open(path, "wb") as f:
            f.write(data)


def python_include():
    import sysconfig
    r = subprocess.run([PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"],
                       stdout=subprocess.PIPE, check=True)
    return r.stdout.decode().strip()


def build(variant="plain", verbose=False, ext=True):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(variant, verbose, ext)
    finally:
        lock.close()


def _build(variant, verbose, ext):
    t0 = time.time()
    out = os.path.join(BUILD, variant)
    obj = os.path.join(BUILD, "obj")
    gen = os.path.join(BUILD, "gen")
    os.makedirs(out, exist_ok=True)
    os.makedirs(obj, exist_ok=True)
    # generated headers and sources
    genfiles = set()
    for p in glob.glob(REPO + "/include/nntile/*.h.in"):
        d = os.path.join(gen, "include/nntile", os.path.basename(p)[:-3])
        write_if_changed(d, configure(read(p).decode(), DEFS))
        genfiles.add(d)
    srcs = []
    listed = re.findall(r'"([\w./-]+\.cc)"', re.sub(r"#.*", "", read(REPO + "/src/CMakeLists.txt").decode()))
    listed += [os.path.relpath(p, REPO + "/src")[:-3] for p in glob.glob(REPO + "/src/**/*.cc.in", recursive=True)]
    for rel in sorted(set("src/" + x for x in listed)):
        p = os.path.join(REPO, rel)
        if rel in EXCLUDE:
            continue
        if os.path.exists(p + ".in"):
            d = os.path.join(gen, rel)
            write_if_changed(d, configure(read(p + ".in").decode(), DEFS))
            srcs.append((rel, d))
        elif os.path.exists(p):
            srcs.append((rel, p))
    hdr = sorted(glob.glob(REPO + "/include/**/*", recursive=True)) + sorted(genfiles) \
        + sorted(p for p in glob.glob(REPO + "/src/**/*", recursive=True)
                 if os.path.isfile(p) and not p.endswith((".cc", ".cu", ".in", ".txt"))) \
        + sorted(glob.glob(REPO + "/external/*.h"))
    hd = sha(*[x for p in hdr if os.path.isfile(p) for x in (p, read(p))])
    base = ["g++", "-std=gnu++17", "-O1", "-fPIC", "-include", "cmath", "-DNDEBUG", "-w",
            "-D_GLIBCXX_ASSERTIONS", "-I" + REPO + "/include", "-I" + gen + "/include",
            "-I" + STARPU_INC]
    jobs = []  # (key, cmd, label)

    def add(label, src, flags, extra=""):
        key = sha(read(src), hd, " ".join(flags), extra)
        o = os.path.join(obj, key + ".o")
        jobs.append((o, base + flags + ["-c", src, "-o"], label))
        return o

    mon = variant == "mon"
    lib_objs, ext_objs, shim_objs, where_objs, mon_objs, standin_objs = [], [], [], [], [], []
    for rel, p in srcs:
        flags = ["-I" + os.path.dirname(os.path.join(REPO, rel))]
        if mon and (rel.startswith("src/kernel/") or rel.startswith("src/starpu/")):
            flags += ["-fsanitize=thread"]
        lib_objs.append(add(rel, p, flags))
    pyinc = python_include() if ext else ""
    if ext:
        ext_objs.append(add("nntile_core", REPO + "/wrappers/python/nntile/nntile_core.cc",
                            ["-fvisibility=hidden", "-isystem", pyinc, "-I" + REPO + "/external"]))
        shim_objs.append(add("shim", os.path.join(HERE, "shim.cc"),
                             ["-fvisibility=hidden", "-isystem", pyinc]))
        standin_objs.append(add("standin", os.path.join(HERE, "standin.cc"),
                                ["-fvisibility=hidden", "-isystem", pyinc]))
        half = [os.path.join(REPO, "src/kernel/%s/cpu.cc" % k) for k in ("fp32_to_fp16", "fp16_to_fp32")]
        standin_objs.append(add("half", os.path.join(HERE, "fp16.cc"),
                                ["-fvisibility=hidden", "-I" + os.path.join(HERE, "cudastub"), "-I" + REPO + "/src"],
                                sha(read(os.path.join(HERE, "cudastub", "cuda_fp16.h")), *[read(f) if os.path.exists(f) else "" for f in half])))
        where_objs.append(add("where", os.path.join(HERE, "where.cc"),
                              ["-fvisibility=hidden", "-isystem", pyinc]))
    mc_o = add("mcstarpu", os.path.join(HERE, "mcstarpu.cc"), ["-O2", "-g"])
    if mon:
        mon_objs.append(add("mon", os.path.join(HERE, "mon.cc"), ["-O2", "-g"]))

    def compile_one(j):
        o, cmd, label = j
        if os.path.exists(o):
            os.utime(o)
            return 0
        try:
            run(cmd + [o + ".tmp.o"])
        except BuildError as e:
            if label not in ("shim", "where", "standin", "half"):
                raise
            # the shim only widens access; without it the checks drive the rest
            print("warning: optional binding %s does not compile: %s" % (label, str(e)[:3000]), flush=True)
            return 0
        os.rename(o + ".tmp.o", o)
        return 1
    # slow translation units first
    prio = {"nntile_core": 0, "shim": 1}
    jobs.sort(key=lambda j: prio.get(j[2], 5))
    with ThreadPoolExecutor(NPROC) as ex:
        n = sum(ex.map(compile_one, jobs))

    def link(target, cmd, deps):
        key = sha(*deps, " ".join(cmd))
        stamp = target + ".key"
        if os.path.exists(target) and os.path.exists(stamp) and read(stamp).decode() == key:
            return
        if os.path.lexists(target):
            os.unlink(target)
        run(cmd)
        with open(stamp, "w") as f:
            f.write(key)
    modeldir = os.path.join(out, "model")
    os.makedirs(modeldir, exist_ok=True)
    mclib = os.path.join(modeldir, "libstarpu-1.4.so.4")
    link(mclib, ["g++", "-shared", "-Wl,-soname,libstarpu-1.4.so.4", mc_o, "-o", mclib, "-ldl"], [mc_o])
    acc = os.path.join(out, "mcacc.so")
    link(acc, ["g++", "-O2", "-std=gnu++17", "-shared", "-fPIC", os.path.join(HERE, "acc.cc"), "-o", acc, "-lquadmath"],
         [sha(read(os.path.join(HERE, "acc.cc")))])
    lib = os.path.join(out, "libnntile.so")
    wraps = []
    if mon:
        wraps = ["-Wl," + ",".join("--wrap=" + s for s in MON_WRAPS)]
    link(lib, ["g++", "-shared", "-Wl,-soname,libnntile.so"] + lib_objs + mon_objs + wraps
         + ["-o", lib, mclib, "-lblas" if not os.path.exists("/lib/x86_64-linux-gnu/libopenblas.so.0")
            else "/lib/x86_64-linux-gnu/libopenblas.so.0", "-Wl,-rpath," + out], lib_objs + mon_objs)
    if ext:
        core = os.path.join(out, "nntile_core.so")
        link(core, ["g++", "-shared"] + ext_objs + ["-o", core, lib, mclib, "-Wl,-rpath," + out], ext_objs + [lib])
        for nm, objs in (("mcshim", shim_objs), ("mcwhere", where_objs), ("mcstandin", standin_objs)):
            so = os.path.join(out, nm + ".so")
            if os.path.exists(objs[0]):
                objs = [o for o in objs if os.path.exists(o)]
                link(so, ["g++", "-shared"] + objs + ["-o", so, lib, mclib, "-Wl,-rpath," + out], objs + [lib])
            elif os.path.lexists(so):
                os.unlink(so)
        # python package
        pkg = os.path.join(out, "pkg", "nntile")
        if os.path.isdir(pkg):
            shutil.rmtree(pkg)
        shutil.copytree(REPO + "/wrappers/python/nntile", pkg,
                        ignore=lambda d, ns: [x for x in ns if not (x.endswith(".py") or os.path.isdir(os.path.join(d, x))) or x == "__pycache__"])
        os.symlink(core, os.path.join(pkg, "nntile_core.so"))
    # bound the cache
    fs = sorted((os.path.join(obj, f) for f in os.listdir(obj)), key=os.path.getmtime)
    tot = sum(os.path.getsize(f) for f in fs)
    for f in fs:
        if tot < 1500e6:
            break
        tot -= os.path.getsize(f)
        os.unlink(f)
    if verbose:
        print("built %s: %d objects compiled, %.1f s" % (variant, n, time.time() - t0), flush=True)
    return out


MON_WRAPS = ["memset", "memcpy", "memmove", "malloc", "free", "calloc", "realloc", "_Znwm", "_Znam", "_ZdlPv", "_ZdaPv", "_ZdlPvm",
             "__cxa_guard_acquire", "__cxa_guard_release", "cblas_sgemm", "cblas_dgemm"] \
    + ["cblas_" + t + f for t in "sd" for f in ("nrm2", "asum", "dot", "scal", "axpy", "copy")]

if __name__ == "__main__":
    for v in (sys.argv[1:] or ["plain"]):
        try:
            build(v, True)
        except BuildError as e:
            print(e)
            sys.exit(2)
