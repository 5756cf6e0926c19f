"""Builds what the simulator needs: the I/O shim, and /repo's extensions if they are stale."""

import fcntl
import glob
import hashlib
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, ".build")


def shim_path():
    src = open(os.path.join(ROOT, "sim", "shim.c"), "rb").read()
    return os.path.join(OUT, "shim-%s.so" % hashlib.sha256(src).hexdigest()[:16])


def build_shim():
    path = shim_path()
    if os.path.exists(path):
        return path
    os.makedirs(OUT, exist_ok=True)
    tmp = "%s.%d" % (path, os.getpid())
    subprocess.run(
        ["gcc", "-O2", "-shared", "-fPIC", "-Wall", "-o", tmp,
         os.path.join(ROOT, "sim", "shim.c"), "-ldl", "-lpthread"],
        check=True,
    )
    os.replace(tmp, path)
    return path


def build_repo():
    """build.sh's own staleness rule, so that an up-to-date tree costs nothing"""
    cmd = (
        "cd /repo && { find hatchet -name '*.pyx' -o -name '*.pxd'; echo setup.py; "
        "echo pyproject.toml; } | LC_ALL=C sort | xargs sha256sum; /opt/venv/bin/python -VV"
    )
    want = subprocess.run(["bash", "-c", cmd], capture_output=True, text=True).stdout.strip()
    have = ""
    try:
        have = open("/repo/build/.ext-inputs.sha256").read().strip()
    except OSError:
        pass
    libs = glob.glob("/repo/hatchet/cython_modules/libs/*.so")
    if want == have and len(libs) >= 2:
        return
    r = subprocess.run(
        ["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True
    )
    if r.returncode:
        print("HARNESS ERROR: /repo does not build\n" + r.stdout[-3000:])
        sys.exit(2)


def ensure():
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        build_shim()
        build_repo()


if __name__ == "__main__":
    ensure()
    print("built", shim_path())
