"""Builds a private copy of /repo's working tree (never writes into /repo).

tree(kind) returns the src directory to put on sys.path:
  kind "py"    python sources only (no extension modules compiled)
  kind "ext"   with the four extension modules compiled as shipped
  kind "alloc" as "ext", but the slope fitter is compiled with the simulated
               allocator (sim/alloc/sim_alloc.h) in front of malloc/calloc/...
Built trees are cached in /verif/.build under a hash of everything that goes in.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("SIM_REPO", "/repo"))
BUILD = VERIF / ".build"
PY = "/opt/venv/bin/python"
ALLOC_H = VERIF / "sim" / "alloc" / "sim_alloc.h"
C_SUFFIXES = {".pyx", ".pxd", ".pxi", ".c", ".h", ".cc", ".hpp"}
SKIP_DIRS = {"__pycache__", ".git"}


def base_env():
    env = dict(os.environ)
    env.update(
        HOME=os.environ.get("HOME", "/root"), LANG="C.UTF-8",
        PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
        SETUPTOOLS_SCM_PRETEND_VERSION="1.19.1", PYTHONDONTWRITEBYTECODE="1",
        PYTHONNOUSERSITE="1", PIP_NO_INDEX="1", OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", AWS_EC2_METADATA_DISABLED="true",
    )
    return env


def _source_files():
    out = []
    for root, dirs, files in os.walk(REPO / "src"):
        dirs[:] = sorted(d for d in dirs if d not in SKIP_DIRS and not d.endswith(".egg-info"))
        for f in sorted(files):
            p = Path(root) / f
            if f.endswith((".so", ".pyc", ".o")):
                continue
            if f == "_version.py":
                continue
            if f.endswith(".cpp") and p.with_suffix(".pyx").exists():
                continue
            out.append(p)
    for name in ("setup.py", "pyproject.toml", "README.md", "LICENSE", "MANIFEST.in"):
        if (REPO / name).exists():
            out.append(REPO / name)
    return out


def _hash(paths, extra=b""):
    h = hashlib.sha256(extra)
    for p in paths:
        h.update(str(p.relative_to(REPO)).encode() + b"\0" + p.read_bytes() + b"\0")
    return h.hexdigest()[:20]


class BuildError(RuntimeError):
    pass


def tree(kind="py"):
    BUILD.mkdir(exist_ok=True)
    with open(BUILD / "lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _tree(kind)


def _tree(kind):
    files = _source_files()
    extra = kind.encode()
    if kind == "alloc":
        extra += b"cxx2" + ALLOC_H.read_bytes()
    key = f"{kind}-{_hash(files, extra)}"
    dest = BUILD / key
    if (dest / ".ok").exists():
        return dest / "src"
    tmp = BUILD / f"tmp-{os.getpid()}"
    if tmp.exists():
        shutil.rmtree(tmp)
    for p in files:
        q = tmp / p.relative_to(REPO)
        q.parent.mkdir(parents=True, exist_ok=True)
        shutil.copyfile(p, q)
    (tmp / "src/stcal/_version.py").write_text('version = __version__ = "1.19.1"\n')
    if kind != "py":
        cfiles = [p for p in files if p.suffix in C_SUFFIXES or p.name in ("setup.py", "pyproject.toml")]
        cache = BUILD / f"so-{_hash(cfiles, extra)}"
        if not cache.exists():
            env = base_env()
            if kind == "alloc":
                env["CFLAGS"] = f"-O1 -g -fsanitize=address -fno-omit-frame-pointer -include {ALLOC_H}"
                env["CXXFLAGS"] = env["CFLAGS"]
                env["LDFLAGS"] = "-fsanitize=address -Wl,-Bsymbolic"
            r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace", "--force", "--parallel", "4"],
                               cwd=tmp, env=env, capture_output=True, text=True)
            if r.returncode:
                sys.stderr.write(r.stdout + r.stderr)
                raise BuildError("extension build failed")
            ctmp = BUILD / f"so-tmp-{os.getpid()}"
            for so in sorted((tmp / "src").rglob("*.so")):
                q = ctmp / so.relative_to(tmp)
                q.parent.mkdir(parents=True, exist_ok=True)
                shutil.copyfile(so, q)
            os.rename(ctmp, cache)
            shutil.rmtree(tmp / "build", ignore_errors=True)
        else:
            for so in cache.rglob("*.so"):
                shutil.copyfile(so, tmp / so.relative_to(cache))
    (tmp / ".ok").write_text("ok")
    if dest.exists():
        shutil.rmtree(dest)
    os.rename(tmp, dest)
    _prune(keep={dest.name})
    return dest / "src"


def _prune(keep, limit=12):
    entries = [p for p in BUILD.iterdir() if p.is_dir() and p.name.split("-")[0] in ("py", "ext", "alloc", "so")]
    entries.sort(key=lambda p: p.stat().st_mtime, reverse=True)
    for p in entries[limit:]:
        if p.name not in keep:
            shutil.rmtree(p, ignore_errors=True)


def cshim(name):
    """Compile sim/<name>.c into a shared library and return its path."""
    src = VERIF / "sim" / "shim" / f"{name}.c"
    key = hashlib.sha256(src.read_bytes()).hexdigest()[:16]
    out = BUILD / f"{name}-{key}.so"
    BUILD.mkdir(exist_ok=True)
    if not out.exists():
        tmp = BUILD / f"{name}-{os.getpid()}.tmp"
        r = subprocess.run(["gcc", "-O1", "-g", "-fPIC", "-shared", "-o", str(tmp), str(src), "-ldl", "-lpthread"],
                           capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stderr)
            raise BuildError(f"shim {name} failed to compile")
        os.rename(tmp, out)
    return out


def shim(name):
    """What is preloaded for a check: nothing, a shim of ours or the address sanitizer."""
    return None if not name else asan() if name == "asan" else cshim(name)


def asan():
    """What to preload for the address sanitizer: its runtime library, and the C++ library for the exceptions it intercepts."""
    paths = [subprocess.run(["gcc", f"-print-file-name={n}"], capture_output=True, text=True, check=True).stdout.strip() for n in ("libasan.so", "libstdc++.so")]
    return " ".join(str(Path(p).resolve()) for p in paths)


def simnp():
    """Compile the memory handler for numpy arrays; returns the path of the library."""
    src = VERIF / "sim" / "alloc" / "simnp.c"
    out = BUILD / f"simnp-{hashlib.sha256(src.read_bytes()).hexdigest()[:16]}.so"
    BUILD.mkdir(exist_ok=True)
    if not out.exists():
        inc = subprocess.run([PY, "-c", "import sysconfig, numpy; print(sysconfig.get_paths()['include'], numpy.get_include())"],
                             capture_output=True, text=True, check=True, env=base_env()).stdout.split()
        tmp = BUILD / f"simnp-{os.getpid()}.tmp"
        r = subprocess.run(["gcc", "-O1", "-g", "-fPIC", "-shared", "-o", str(tmp), str(src)] + [f"-I{i}" for i in inc], capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stderr)
            raise BuildError("simnp failed to compile")
        os.rename(tmp, out)
    return out


if __name__ == "__main__":
    for k in sys.argv[1:] or ["py", "ext"]:
        if k == "shims":
            for c in sorted((VERIF / "sim" / "shim").glob("*.c")):
                print(cshim(c.stem))
            print(simnp())
            continue
        print(k, tree(k))
