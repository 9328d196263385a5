"""Builds the code under test from /repo's *current working tree*, out of tree.

The C++ sources and the Python package are copied to a scratch directory keyed
by their content, compiled there with the repository's own meson.build (at -O1,
with assertions and libstdc++ assertions enabled), and installed next to the
copied Python package. Nothing is written to /repo.
"""

import fcntl
import hashlib
import os
import pathlib
import shutil
import subprocess
import sys

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
ROOT = pathlib.Path(__file__).resolve().parent.parent
WORK = ROOT / ".build"
PARTS = ("pyvrp", "buildtools", "subprojects", "meson.build", "pyproject.toml")
SKIP_DIRS = {"__pycache__", "build", ".mypy_cache", ".ruff_cache"}
SKIP_EXT = {".so", ".pyc", ".pyd", ".o"}


def _files():
    for part in PARTS:
        top = REPO / part
        if top.is_file():
            yield top
        elif top.is_dir():
            for base, dirs, files in os.walk(top):
                dirs[:] = sorted(d for d in dirs if d not in SKIP_DIRS)
                for name in sorted(files):
                    path = pathlib.Path(base) / name
                    if path.suffix not in SKIP_EXT and path.is_file():
                        yield path


def env():
    new = dict(os.environ)
    new["PATH"] = "/opt/venv/bin:" + new.get("PATH", "/usr/bin:/bin")
    new["PKG_CONFIG_PATH"] = "/opt/vp/pkgconfig"
    new["CCACHE_DISABLE"] = "1"
    new["PYTHONDONTWRITEBYTECODE"] = "1"
    return new


def build(quiet=True) -> pathlib.Path:
    """Returns a directory that can be put on sys.path to import pyvrp."""
    digest = hashlib.sha256()
    files = list(_files())
    for path in files:
        digest.update(str(path.relative_to(REPO)).encode() + b"\0")
        digest.update(path.read_bytes() + b"\0")
    digest.update(pathlib.Path(__file__).read_bytes())
    key = digest.hexdigest()[:16]

    WORK.mkdir(exist_ok=True)
    dest = WORK / key
    with open(WORK / "lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if (dest / "ok").exists():
            return dest / "src"

        # Drop older builds, to bound disk usage.
        old = sorted(
            (p for p in WORK.iterdir() if p.is_dir()),
            key=lambda p: p.stat().st_mtime,
        )
        for path in old[:-3]:
            shutil.rmtree(path, ignore_errors=True)
        shutil.rmtree(dest, ignore_errors=True)

        src = dest / "src"
        for path in files:
            target = src / path.relative_to(REPO)
            target.parent.mkdir(parents=True, exist_ok=True)
            shutil.copyfile(path, target)
            shutil.copymode(path, target)

        bld = dest / "obj"
        log = open(dest / "log", "w")
        cmds = [
            [
                "meson", "setup", str(bld), str(src),
                "--buildtype", "custom", "-Doptimization=1", "-Ddebug=false",
                "-Db_ndebug=false", "-Db_lto=false", "-Dwerror=false",
                "-Dwarning_level=0", "-Db_coverage=false",
                "--wrap-mode=nodownload",
                f"-Dpython.platlibdir={src}",
                "-Dcpp_args=-D_GLIBCXX_ASSERTIONS=1",
            ],
            ["meson", "compile", "-C", str(bld)],
            ["meson", "install", "-C", str(bld), "--skip-subprojects"],
        ]
        for cmd in cmds:
            res = subprocess.run(
                cmd, cwd=src, env=env(), stdout=log, stderr=subprocess.STDOUT
            )
            if res.returncode != 0:
                log.close()
                sys.stderr.write((dest / "log").read_text()[-4000:])
                raise SystemExit("BUILD-FAILED: /repo does not build")
        log.close()
        shutil.rmtree(bld, ignore_errors=True)
        (dest / "ok").touch()
        return src


if __name__ == "__main__":
    print(build())
