"""Build the Python package from /repo's current working tree, privately (never inside /repo)."""
import hashlib
import os
import shutil
import subprocess
import sys
from pathlib import Path

REPO = Path(os.environ.get("VF_REPO", "/repo"))
VERIF = Path(__file__).resolve().parents[2]
OUT = Path(os.environ.get("VF_OUT", VERIF / ".build"))
PY = "/opt/spl-venv/bin/python"


def _files():
    for base in ("src", "python"):
        for p in sorted((REPO / base).rglob("*")):
            if p.is_file() and "__pycache__" not in p.parts and p.suffix not in (".so", ".pyc"):
                yield p
    for n in ("Cargo.toml", "Cargo.lock", "build.rs"):
        if (REPO / n).exists():
            yield REPO / n
    for p in sorted((REPO / ".cargo").rglob("*")) if (REPO / ".cargo").exists() else []:
        yield p


def tree_hash():
    h = hashlib.sha256()
    for p in _files():
        h.update(str(p.relative_to(REPO)).encode() + b"\0" + p.read_bytes() + b"\0")
    return h.hexdigest()[:16]


def ensure(verbose=True):
    """Returns a directory to put on sys.path."""
    OUT.mkdir(parents=True, exist_ok=True)
    key = tree_hash()
    dest = OUT / "pkg" / key
    if (dest / "OK").exists():
        return dest
    src = OUT / "src"
    if src.exists():
        shutil.rmtree(src)
    # cargo works on a copy, so nothing is ever written below /repo (Cargo.lock is not tracked there)
    src.mkdir(parents=True)
    for p in _files():
        d = src / p.relative_to(REPO)
        d.parent.mkdir(parents=True, exist_ok=True)
        shutil.copy2(p, d)
    for n in ("README.md", "LICENSE", "pyproject.toml"):
        if (REPO / n).exists():
            shutil.copy2(REPO / n, src / n)
    if not (src / "Cargo.lock").exists() and Path("/opt/vp/Cargo.lock").exists():
        shutil.copy2("/opt/vp/Cargo.lock", src / "Cargo.lock")
    env = dict(os.environ)
    env.update(HOME="/root", LANG="C.UTF-8", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", PYO3_PYTHON=PY, RUSTFLAGS="-Awarnings",
               CARGO_PROFILE_DEV_OPT_LEVEL="1", CARGO_PROFILE_DEV_DEBUG="0", CARGO_INCREMENTAL="0",
               CARGO_TARGET_DIR=str(OUT / "target"))
    env["PATH"] = "/opt/spl-venv/bin:/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    r = subprocess.run(["cargo", "build", "--lib", "--offline"], cwd=src, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        print("BUILD FAILED: the working tree of the repository does not compile")
        sys.exit(2)
    tmp = OUT / "pkg" / (key + ".tmp")
    if tmp.exists():
        shutil.rmtree(tmp)
    shutil.copytree(src / "python" / "spl_transpiler", tmp / "spl_transpiler")
    shutil.copy2(OUT / "target" / "debug" / "libspl_transpiler.so",
                 tmp / "spl_transpiler" / "spl_transpiler.cpython-312-x86_64-linux-gnu.so")
    (tmp / "OK").write_text("")
    for old in (OUT / "pkg").iterdir():  # keep disk use bounded
        if old != tmp and old != dest:
            shutil.rmtree(old)
    if dest.exists():
        shutil.rmtree(dest)
    tmp.rename(dest)
    return dest


if __name__ == "__main__":
    print(ensure())
