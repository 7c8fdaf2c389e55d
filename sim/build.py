"""Out-of-tree, content-addressed build of the C++ engine of /repo with the simulator's seam linked in.

Every object is keyed by the hash of its source, of all repository headers it includes (transitively), of the seam
and of the flags; only what /repo's working tree really changed is compiled again.  Nothing is written in /repo.
"""
import fcntl
import glob
import hashlib
import os
import re
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
CACHE = os.path.join(VERIF, "build", "native")
VENV = "/opt/venv"
TORCH = VENV + "/lib/python3.12/site-packages/torch"
PYBIND = VENV + "/lib/python3.12/site-packages/pybind11/include"
OPT = ["-O1", "-g0"]
COMMON = ["-fopenmp", "-w", "-Wno-narrowing", "-DNDEBUG", "-std=gnu++17", "-fPIC", "-DRPU_USE_OPENBLAS",
          "-DRPU_USE_WITH_TORCH", "-D_GLIBCXX_USE_CXX11_ABI=1"]
INC = ["-I" + VENV + "/include", "-I/usr/include/python3.12", "-I" + PYBIND, "-I" + TORCH + "/include",
       "-I" + TORCH + "/include/torch/csrc/api/include"]
_INCLUDE = re.compile(rb'^\s*#\s*include\s*["<]([^">]+)[">]', re.M)


def _read(path):
    with open(path, "rb") as f:
        return f.read()


class Tree:
    """The sources of one kind (engine, bindings, extension) and how their includes resolve."""

    def __init__(self, repo):
        self.repo = repo
        self.search = [repo + "/src/rpucuda", repo + "/src/aihwkit/simulator/rpu_base_src",
                       repo + "/src/aihwkit/extension/extension_src"]
        self.cache = {}

    def deps(self, path, seen):
        if path in seen:
            return
        seen.add(path)
        if path not in self.cache:
            data = _read(path)
            found = []
            for name in _INCLUDE.findall(data):
                name = name.decode("utf8", "replace")
                for base in [os.path.dirname(path)] + self.search:
                    cand = os.path.normpath(os.path.join(base, name))
                    if os.path.isfile(cand):
                        found.append(cand)
                        break
            self.cache[path] = (hashlib.sha256(data).hexdigest(), found)
        for dep in self.cache[path][1]:
            self.deps(dep, seen)

    def key(self, path, flags):
        seen = set()
        self.deps(path, seen)
        h = hashlib.sha256()
        for dep in sorted(seen):
            h.update(os.path.relpath(dep, self.repo).encode() + b"\0" + self.cache[dep][0].encode())
        h.update(os.path.relpath(path, self.repo).encode())
        h.update(" ".join(f.replace(self.repo, "@") for f in flags).encode())
        return h.hexdigest()[:32]


def sources(repo):
    core = [s for s in sorted(glob.glob(repo + "/src/rpucuda/*.cpp")) if not s.endswith("_test.cpp")]
    bind = sorted(glob.glob(repo + "/src/aihwkit/simulator/rpu_base_src/*.cpp"))
    return core, bind


def align_lib():
    """The allocator preloaded into simulated processes."""
    key = hashlib.sha256(_read(HERE + "/native/align.c")).hexdigest()[:16]
    return f"{CACHE}/lib/align-{key}.so"


def _build_align():
    out = align_lib()
    if not os.path.exists(out):
        res = subprocess.run(["/usr/bin/gcc", "-O2", "-fno-builtin", "-shared", "-fPIC", "-o", out + ".tmp",
                              HERE + "/native/align.c"], capture_output=True, text=True, check=False)
        if res.returncode:
            raise RuntimeError("allocator build failed:\n" + res.stderr[-2000:])
        os.rename(out + ".tmp", out)


def build(verbose=False):
    """Return the path of the built extension module for the current tree; raises RuntimeError if it fails."""
    t0 = time.time()
    os.makedirs(CACHE + "/obj", exist_ok=True)
    os.makedirs(CACHE + "/lib", exist_ok=True)
    with open(CACHE + "/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        tree = Tree(REPO)
        seam = hashlib.sha256(_read(HERE + "/native/simseam.h") + _read(HERE + "/native/simseam.cpp")).hexdigest()
        core, bind = sources(REPO)
        rpu = ["-isystem", REPO + "/src/rpucuda"]
        jobs = []
        for src in bind:
            flags = OPT + COMMON + INC + rpu + ["-include", HERE + "/native/simseam.h", "-fvisibility=hidden",
                                                "-Drpu_base_EXPORTS"]
            jobs.append((src, flags))
        for src in core:
            flags = ["-O2", "-g0"] + COMMON + INC + rpu + ["-DSIM_CORE", "-include", HERE + "/native/simseam.h"]
            jobs.append((src, flags))
        keyed = [(src, flags, tree.key(src, flags + [seam])) for src, flags in jobs]
        todo = [(s, f, k) for s, f, k in keyed if not os.path.exists(f"{CACHE}/obj/{k}.o")]
        # biggest first
        todo.sort(key=lambda j: (0 if "rpu_base_src" in j[0] else 1, -os.path.getsize(j[0])))

        def compile_one(job):
            src, flags, key = job
            tmp = f"{CACHE}/obj/{key}.{os.getpid()}.tmp.o"
            res = subprocess.run(["/usr/bin/g++", *flags, "-c", src, "-o", tmp], capture_output=True, text=True,
                                 check=False)
            if res.returncode:
                return f"{src}: {res.stderr[-3000:]}"
            os.rename(tmp, f"{CACHE}/obj/{key}.o")
            return None

        if todo:
            with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as pool:
                errors = [e for e in pool.map(compile_one, todo) if e]
            if errors:
                raise RuntimeError("C++ build failed:\n" + "\n".join(errors))
        _build_align()
        total = hashlib.sha256((seam + "".join(k for _, _, k in keyed)).encode()).hexdigest()[:24]
        out_dir = f"{CACHE}/lib/{total}"
        lib = f"{out_dir}/rpu_base.cpython-312-x86_64-linux-gnu.so"
        if not os.path.exists(lib):
            os.makedirs(out_dir, exist_ok=True)
            tmp = lib + ".tmp"
            cmd = ["/usr/bin/g++", "-shared", "-fPIC", "-O1", "-fopenmp", "-o", tmp]
            cmd += [f"{CACHE}/obj/{k}.o" for _, _, k in keyed]
            cmd += [HERE + "/native/simseam.cpp", "-Wl,--wrap=rand", "-Wl,--wrap=srand",
                    "-Wl,--wrap=_ZNSt6chrono3_V212system_clock3nowEv",
                    "-L" + TORCH + "/lib", "-Wl,-rpath," + VENV + "/lib:" + TORCH + "/lib",
                    "-ltorch_python", "-ltorch", "-ltorch_cpu", "-lc10", "/usr/lib/x86_64-linux-gnu/libopenblas.so"]
            res = subprocess.run(cmd, capture_output=True, text=True, check=False)
            if res.returncode:
                raise RuntimeError("link failed:\n" + res.stderr[-3000:])
            os.rename(tmp, lib)
    if verbose:
        print(f"engine: {len(todo)} of {len(keyed)} objects compiled in {time.time() - t0:.1f} s -> {total}")
    return lib, {"objects": len(keyed), "compiled": len(todo), "seconds": round(time.time() - t0, 1), "key": total}


if __name__ == "__main__":
    try:
        print(build(verbose=True)[0])
    except RuntimeError as exc:
        print(exc, file=sys.stderr)
        sys.exit(2)
