"""Build /repo's extension module from its *current* working tree and stage an importable package.

Everything produced lives under /verif/.build (git-ignored).  /repo is only read.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = Path(os.environ.get("VERIF_BUILD", VERIF / ".build"))
VENV_PY = "/opt/spl-venv/bin/python"
EXT = "spl_transpiler.cpython-312-x86_64-linux-gnu.so"


def _rust_inputs():
    files = [REPO / "Cargo.toml", REPO / "Cargo.lock"]
    for p in ("build.rs", "rust-toolchain", "rust-toolchain.toml", ".cargo/config.toml"):
        if (REPO / p).exists():
            files.append(REPO / p)
    files += sorted((REPO / "src").rglob("*"))
    return [f for f in files if f.is_file()]


def _hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(str(f).encode() + b"\0")
        h.update(f.read_bytes())
        h.update(b"\0")
    return h.hexdigest()


def cargo_env():
    env = dict(os.environ)
    env.update(
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="1",
        CARGO_PROFILE_DEV_DEBUG="line-tables-only",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        PYO3_PYTHON=VENV_PY,
        RUSTFLAGS="-Awarnings",
        CARGO_TARGET_DIR=str(BUILD / "target"),
        HOME=env.get("HOME", "/root"),
        PATH="/opt/spl-venv/bin:/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin"),
    )
    return env


def build(quiet=True):
    """Returns the directory to put on sys.path."""
    BUILD.mkdir(exist_ok=True)
    with open(BUILD / "lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not (REPO / "Cargo.lock").exists() and Path("/opt/vp/Cargo.lock").exists():
            # git-ignored in the repository, needed for an offline build
            shutil.copy("/opt/vp/Cargo.lock", REPO / "Cargo.lock")
        digest = _hash(_rust_inputs())
        so = BUILD / "so" / f"{digest[:24]}.so"
        if not so.exists():
            env = cargo_env()
            last = BUILD / "last_hash"
            if (not last.exists() or last.read_text() != digest) and (BUILD / "target").exists():
                # content changed (or unknown): never trust mtimes
                subprocess.run(
                    ["cargo", "clean", "--offline", "-p", "spl_transpiler",
                     "--manifest-path", str(REPO / "Cargo.toml")],
                    env=env, cwd=REPO, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            cmd = ["cargo", "build", "--offline", "--lib", "--manifest-path", str(REPO / "Cargo.toml")]
            r = subprocess.run(cmd, env=env, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                sys.stderr.write(r.stdout[-8000:])
                raise SystemExit(2)
            last.write_text(digest)
            (BUILD / "so").mkdir(exist_ok=True)
            olds = sorted((BUILD / "so").glob("*.so"), key=lambda q: q.stat().st_mtime)
            for old in olds[:-3]:
                old.unlink()
            tmp = BUILD / "so" / "tmp"
            shutil.copy(BUILD / "target" / "debug" / "libspl_transpiler.so", tmp)
            tmp.rename(so)
        src = REPO / "python" / "spl_transpiler"
        pyfiles = sorted(p for p in src.rglob("*") if p.is_file() and "__pycache__" not in p.parts and p.suffix != ".so")
        stage = BUILD / f"stage-{digest[:12]}-{_hash(pyfiles)[:12]}"
        if not (stage / "done").exists():
            shutil.rmtree(stage, ignore_errors=True)
            stages = sorted(BUILD.glob("stage-*"), key=lambda q: q.stat().st_mtime)
            for old in stages[:-3]:
                shutil.rmtree(old, ignore_errors=True)
            pkg = stage / "spl_transpiler"
            for p in pyfiles:
                q = pkg / p.relative_to(src)
                q.parent.mkdir(parents=True, exist_ok=True)
                shutil.copyfile(p, q)
            shutil.copy(so, pkg / EXT)
            (stage / "done").write_text("ok")
    return str(stage)


if __name__ == "__main__":
    print(build())
