"""Compile /repo's C++ bindings (src/python/bindings.cpp + include/) from the current working tree.

The result is cached by the hash of every source file it is made of, outside the repository.
"""
from __future__ import annotations
import fcntl, hashlib, importlib.util, os, subprocess, sys, sysconfig, tempfile
from pathlib import Path

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
CACHE = Path(os.environ.get("VERIF_CACHE", Path(__file__).resolve().parent.parent / "build"))
FLAGS = ["-O1", "-DNDEBUG", "-std=c++17", "-fPIC", "-fvisibility=hidden", "-w"]


def _digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(str(f.name).encode())
        h.update(f.read_bytes())
    return h.hexdigest()[:24]


def headers():
    return [p for p in (REPO / "include").rglob("*") if p.is_file()]


def _compile(src: Path, out_stem: str, extra: list[str]) -> Path:
    try:
        CACHE.mkdir(parents=True, exist_ok=True)
        base = CACHE
    except OSError:
        base = Path(tempfile.mkdtemp(prefix="vbuild"))
    dig = _digest([*headers(), src], " ".join(FLAGS + extra))
    out = base / f"{out_stem}-{dig}"
    if out.exists():
        return out
    with open(base / ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if out.exists():
            return out
        tmp = base / f".{out.name}.{os.getpid()}"
        cmd = ["g++", *FLAGS, *extra, str(src), f"-I{REPO}/include", "-o", str(tmp)]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError("C++ build failed:\n" + r.stderr[-4000:])
        for old in base.glob(f"{out_stem}-*"):
            if old != out:
                old.unlink(missing_ok=True)
        os.rename(tmp, out)
    return out


def build_ext() -> Path:
    import pybind11
    inc = [f"-I{pybind11.get_include()}", f"-I{sysconfig.get_paths()['include']}", "-shared"]
    return _compile(REPO / "src/python/bindings.cpp", "_qudits", inc)


def install():
    """Make `mqt.qudits._qudits` be the extension built from the current sources."""
    so = build_ext()
    import mqt.qudits  # noqa: F401  (the package itself is read from REPO/src)
    loader = importlib.machinery.ExtensionFileLoader("mqt.qudits._qudits", str(so))
    spec = importlib.util.spec_from_file_location("mqt.qudits._qudits", str(so), loader=loader)
    mod = importlib.util.module_from_spec(spec)
    sys.modules["mqt.qudits._qudits"] = mod
    spec.loader.exec_module(mod)
    sys.modules.setdefault("mqt.qudits._qudits.misim", mod.misim)
    return mod


def build_driver(src: Path) -> Path:
    """A program of ours on the package headers, with the package's own assertions on."""
    return _compile(Path(src), src.stem, ["-UNDEBUG"])
