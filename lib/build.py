"""Builds instrumented copies of the backend from the current working tree of /repo.

variant 'plain': the project's own flags, scripted random numbers.
variant 'asan' : AddressSanitizer + UBSan + libstdc++ assertions, scripted random numbers.
variant 'mpi'  : RUNMPI true, linked against lib/fakempi (ranks = forked processes, shared memory).

The result is a self-contained package directory (KMCLib with its Backend) under /verif/build/<key>,
where <key> is a hash of every input file, so that a change in /repo always gives a new build.
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys, tarfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
PYINC = "/usr/include/python3.12"

COMMON = ["-fPIC", "-std=c++0x", "-w", "-isystem", PYINC]
VARIANTS = {
    "plain": dict(src=["-O3", "-ffast-math"], wrap=["-O0"], link=["-ffast-math"]),
    "asan": dict(src=["-O1", "-g", "-ffast-math", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                      "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer"],
                 wrap=["-O0", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"],
                 link=["-fsanitize=address,undefined"]),
    "mpi": dict(src=["-O3", "-ffast-math", "-I", os.path.join(HERE, "fakempi")],
                wrap=["-O0", "-I", os.path.join(HERE, "fakempi")], link=["-ffast-math"]),
}


def _files(root):
    out = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        dirs[:] = [x for x in dirs if x != "__pycache__"]
        for f in sorted(files):
            out.append(os.path.join(d, f))
    return out


def _inputs():
    files = []
    for sub in ("c++/src", "c++/custom", "c++/wrap"):
        files += [f for f in _files(os.path.join(REPO, sub))
                  if f.endswith((".cpp", ".h", ".i", ".c", "wrap/CMakeLists.txt")) and os.path.basename(f) not in ("mpiflag.h", "custom.i")]
    files += [f for f in _files(os.path.join(REPO, "python/src/KMCLib")) if f.endswith(".py")
              and not f.endswith(("Backend/Backend.py", "Backend/Custom.py"))]
    files += [f for f in _files(HERE) if f.endswith((".cpp", ".h", ".i")) or f == os.path.abspath(__file__)]
    return files


def key(variant):
    h = hashlib.sha256(variant.encode())
    for f in _inputs():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return variant + "-" + h.hexdigest()[:16]


class BuildError(Exception):
    pass


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def build(variant="plain"):
    """Return the directory to put first on sys.path (holds the package KMCLib)."""
    os.makedirs(BUILD, exist_ok=True)
    k = key(variant)
    dest = os.path.join(BUILD, k)
    with open(os.path.join(BUILD, ".lock-" + variant), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, "DONE")):
            os.utime(dest)
            return os.path.join(dest, "py")
        shutil.rmtree(dest, ignore_errors=True)
        for old in sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(variant + "-")),
                          key=os.path.getmtime)[:-2]:
            shutil.rmtree(old, ignore_errors=True)
        work = os.path.join(dest, "work")
        os.makedirs(work)
        _build(variant, work, os.path.join(dest, "py"))
        shutil.rmtree(work, ignore_errors=True)
        open(os.path.join(dest, "DONE"), "w").close()
    return os.path.join(dest, "py")


def _build(variant, work, py):
    v = VARIANTS[variant]
    for sub in ("src", "custom", "wrap"):
        shutil.copytree(os.path.join(REPO, "c++", sub), os.path.join(work, sub))
    with open(os.path.join(work, "src", "mpiflag.h"), "w") as f:
        f.write("#define RUNMPI %s\n" % ("true" if variant == "mpi" else "false"))
    # The md5 code comes from the vendored tarball.
    ext = os.path.join(work, "ext", "externals")
    os.makedirs(ext)
    with tarfile.open(os.path.join(REPO, "c++/externals/zip/md5.tar.gz")) as t:
        for name in ("md5/md5.c", "md5/md5.h"):
            with open(os.path.join(ext, os.path.basename(name)), "wb") as f:
                f.write(t.extractfile(name).read())
    inc = ["-I", "src", "-I", "ext", "-I", "custom", "-I", "wrap"]
    # The generated interface file of the custom calculators, as c++/wrap/CMakeLists.txt writes it.
    headers = sorted(os.path.join(work, "custom", f) for f in os.listdir(os.path.join(work, "custom")) if f.endswith(".h"))
    with open(os.path.join(work, "wrap", "custom.i"), "w") as f:
        for i in ("std_vector.i", "std_map.i", "std_string.i", "std_pair.i", "ratecalculator.h"):
            f.write('%%include "%s"\n' % i)
        with open(os.path.join(REPO, "c++", "wrap", "CMakeLists.txt")) as g:
            for t in re.findall(r'"(%template[^"]*;)', g.read()):
                f.write(t.replace("\\", "") + "\n")
        f.write("%module Custom\n%{\n" + "".join('#include "%s"\n' % h for h in headers) + "%}\n")
        f.write("".join('%%include "%s"\n' % h for h in headers))
    with open(os.path.join(work, "wrap", "backend.i"), "a") as f:
        with open(os.path.join(HERE, "extend.i")) as g:
            f.write("\n" + g.read())
    jobs = []

    def obj(name):
        return os.path.join("obj", name + ".o")
    os.makedirs(os.path.join(work, "obj"))
    srcs = sorted(f for f in os.listdir(os.path.join(work, "src")) if f.endswith(".cpp"))
    src_objs = []
    for f in srcs:
        extra = ["-DrandomDouble01=real_randomDouble01"] if f == "random.cpp" else []
        jobs.append(["g++"] + COMMON + v["src"] + inc + extra + ["-c", "src/" + f, "-o", obj("src_" + f)])
        src_objs.append(obj("src_" + f))
    jobs.append(["g++"] + COMMON + v["src"] + inc + ["-c", os.path.join(HERE, "rng_script.cpp"), "-o", obj("rng_script")])
    src_objs.append(obj("rng_script"))
    if variant == "mpi":
        jobs.append(["g++"] + COMMON + v["src"] + inc + ["-c", os.path.join(HERE, "fakempi", "fakempi.cpp"), "-o", obj("fakempi")])
        src_objs.append(obj("fakempi"))
    jobs.append(["g++", "-fPIC", "-O2", "-w", "-c", "ext/externals/md5.c", "-o", obj("md5")])
    src_objs.append(obj("md5"))
    cust_objs = []
    for f in sorted(f for f in os.listdir(os.path.join(work, "custom")) if f.endswith(".cpp")):
        jobs.append(["g++"] + COMMON + v["src"] + inc + ["-c", "custom/" + f, "-o", obj("custom_" + f)])
        cust_objs.append(obj("custom_" + f))

    def wrap(mod, ifile):
        _run(["swig", "-w302,362", "-python", "-c++", "-Isrc", "-Icustom", "-Iwrap", "-outdir", ".", "-o", mod + "_wrap.cxx", ifile], work)
        _run(["g++"] + COMMON + v["wrap"] + inc + ["-fno-strict-aliasing", "-c", mod + "_wrap.cxx", "-o", obj(mod)], work)

    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        futs = [ex.submit(wrap, "Backend", "wrap/backend.i"), ex.submit(wrap, "Custom", "wrap/custom.i")]
        futs += [ex.submit(_run, j, work) for j in jobs]
        for f in futs:
            f.result()
    link = ["g++", "-shared", "-Wl,-Bsymbolic"] + v["link"]
    with ThreadPoolExecutor(2) as ex:
        futs = [ex.submit(_run, link + ["-o", "_Backend.so", obj("Backend")] + src_objs + ["-lpthread"], work),
                ex.submit(_run, link + ["-o", "_Custom.so", obj("Custom")] + cust_objs + src_objs + ["-lpthread"], work)]
        for f in futs:
            f.result()
    pkg = os.path.join(py, "KMCLib")
    shutil.copytree(os.path.join(REPO, "python/src/KMCLib"), pkg,
                    ignore=shutil.ignore_patterns("__pycache__", "*.so", "Backend.py", "Custom.py"))
    for f in ("Backend.py", "Custom.py", "_Backend.so", "_Custom.so"):
        shutil.copy(os.path.join(work, f), os.path.join(pkg, "Backend", f))


if __name__ == "__main__":
    t = time.time()
    for var in sys.argv[1:] or ["plain"]:
        print(build(var), "%.1fs" % (time.time() - t))
