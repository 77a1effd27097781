"""Builds the code under test (/repo's working tree) with sanitizers, and the monitors against it.

Everything goes into the git-ignored directory /verif/.build. A unity build is tried first, because it is
much faster; if it fails an ordinary build is made, so that code which does not compile as a unity build
but is otherwise fine is not reported as broken.
"""
import fcntl
import os
import shutil
import subprocess
import sys
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VH_REPO", "/repo"))
BUILD = Path(os.environ.get("VH_BUILD", VERIF / ".build"))

CMAKE_OPTIONS = [
    "-G", "Ninja",
    "-DCMAKE_BUILD_TYPE=Debug",
    "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
    "-DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS",
    "-DLUE_BUILD_DATA_MODEL=ON",
    "-DLUE_DATA_MODEL_WITH_PYTHON_API=ON",
    "-DLUE_DATA_MODEL_WITH_UTILITIES=OFF",
    "-DLUE_BUILD_GDAL=ON",
    "-DLUE_GDAL_REQUIRED=ON",
    "-DLUE_BUILD_FRAMEWORK=OFF",
    "-DLUE_BUILD_VIEW=OFF",
    "-DLUE_BUILD_DOCUMENTATION=OFF",
    "-DLUE_BUILD_QUALITY_ASSURANCE=ON",
    "-DLUE_QUALITY_ASSURANCE_WITH_PYTHON_API=ON",
    "-DLUE_QUALITY_ASSURANCE_WITH_TESTS=OFF",
    "-DPython_EXECUTABLE=/opt/lue-venv/bin/python3",
    "-Dpybind11_DIR=/opt/lue-venv/lib/python3.12/site-packages/pybind11/share/cmake/pybind11",
]

# Address and undefined behaviour sanitizers; a report ends the process
SANITIZE = "-O0 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all"


class BuildError(Exception):
    pass


def environment():
    env = dict(os.environ)
    env["PATH"] = "/opt/lue-venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env["CC"] = "/usr/bin/gcc"
    env["CXX"] = "/usr/bin/g++"
    env["LC_ALL"] = "C.UTF-8"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["CCACHE_DIR"] = str(BUILD / "ccache")
    env["CCACHE_MAXSIZE"] = "3G"
    env["GIT_CONFIG_COUNT"] = "1"
    env["GIT_CONFIG_KEY_0"] = "safe.directory"
    env["GIT_CONFIG_VALUE_0"] = "*"
    for name in ("PYTHONPATH", "CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_PRELOAD"):
        env.pop(name, None)
    return env


def directory(unity=True):
    return BUILD / ("asan" if unity else "asan_plain")


def _build(targets, unity, log):
    path = directory(unity)
    path.mkdir(parents=True, exist_ok=True)
    env = environment()
    command = ["cmake", "-S", str(REPO), "-B", str(path), *CMAKE_OPTIONS,
               f"-DCMAKE_CXX_FLAGS_DEBUG={SANITIZE}",
               f"-DCMAKE_PROJECT_INCLUDE={VERIF}/harness/inject.cmake"]
    if unity:
        command += ["-DCMAKE_UNITY_BUILD=ON", "-DCMAKE_UNITY_BUILD_BATCH_SIZE=5"]
    # The Python part of the package is copied at configure time: let removed modules disappear too
    lib = path / "lib"
    if lib.exists():
        for item in lib.rglob("*.py"):
            item.unlink()
    for cmd in (command, ["ninja", "-C", str(path), *targets]):
        result = subprocess.run(cmd, env=env, stdout=log, stderr=subprocess.STDOUT)
        if result.returncode != 0:
            return False
    return True


def _build_hpx(targets, tsan, log):
    """Monitors of the framework, on top of the stand-in for HPX."""
    path = BUILD / ("hpx_tsan" if tsan else "hpx")
    path.mkdir(parents=True, exist_ok=True)
    env = environment()
    sanitize = "-fsanitize=thread" if tsan else "-fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all"
    commands = (["cmake", "-G", "Ninja", "-S", str(VERIF / "harness/hpx"), "-B", str(path), "-DCMAKE_BUILD_TYPE=None",
                 f"-DVH_REPO={REPO}", f"-DVH_SANITIZE={sanitize}"],
                ["ninja", "-C", str(path), *targets])
    for cmd in commands:
        if subprocess.run(cmd, env=env, stdout=log, stderr=subprocess.STDOUT).returncode != 0:
            return None
    return path


def build_hpx(targets, tsan=False):
    """Return the directory with the build products. Raises BuildError."""
    BUILD.mkdir(parents=True, exist_ok=True)
    start = time.time()
    with open(BUILD / "lock_hpx", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        with open(BUILD / "build_hpx.log", "w") as log:
            path = _build_hpx(targets, tsan, log)
            if path:
                return path, time.time() - start
    sys.stderr.write((BUILD / "build_hpx.log").read_text(errors="replace")[-6000:])
    raise BuildError("the tree under test, or the monitors against it, cannot be built")


def build(targets):
    """Return the directory with the build products. Raises BuildError."""
    BUILD.mkdir(parents=True, exist_ok=True)
    start = time.time()
    with open(BUILD / "lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        with open(BUILD / "build.log", "w") as log:
            for unity in (True, False) if not os.environ.get("VH_NO_FALLBACK") else (True,):
                if _build(targets, unity, log):
                    return directory(unity), time.time() - start
    sys.stderr.write((BUILD / "build.log").read_text(errors="replace")[-6000:])
    raise BuildError("the tree under test, or the monitors against it, cannot be built")


if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        # Warm up: build what the checks need. Each check builds what it needs itself, too
        sys.dont_write_bytecode = True
        sys.path.insert(0, str(Path(__file__).resolve().parent))
        from registry import CHECKS
        print(build(sorted({target for check in CHECKS.values() if "hpx" not in check for target in check["targets"]})))
    else:
        print(build(sys.argv[1:] or ["lue_hdf5"]))
