"""Builds the compiled propagators of /repo's working tree in a scratch directory.

Nothing is written in /repo. The library is built by the repository's own
CMakeLists.txt (out of source), and a copy of the Python files is laid beside
it so that `import deepwave` picks up the pair.
"""

import os
import shutil
import subprocess
import sys

REPO = os.environ.get("DWV_REPO", "/repo")

FLAVOURS = {
    # name: (C flags, linker flags)
    "plain": ("-O0 -w", ""),
    "asan": (
        "-O0 -g1 -w -fsanitize=address,undefined -fno-sanitize=float-divide-by-zero "
        "-fsanitize=float-cast-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer",
        "-fsanitize=address,undefined",
    ),
    "tsan": ("-O0 -g1 -w -fsanitize=thread", ""),
    "release": ("-Ofast -w", "-Ofast"),
    # for systems without OpenMP, where the library is built without it
    "serial": ("-O0 -w", ""),
}


class BuildError(Exception):
    pass


def build(flavour, dest, targets=None, jobs=8):
    """Build into dest/pkg/deepwave; returns the directory for PYTHONPATH."""
    cflags, ldflags = FLAVOURS[flavour]
    bdir = os.path.join(dest, "cmake-" + flavour)
    pkg = os.path.join(dest, "pkg-" + flavour, "deepwave")
    os.makedirs(bdir, exist_ok=True)
    os.makedirs(pkg, exist_ok=True)
    if flavour == "tsan":
        # the sanitizer must see the synchronisation of the OpenMP runtime
        shim = os.path.join(dest, "gomp_shim.o")
        src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "gomp_shim.c")
        subprocess.run(["/usr/bin/gcc", "-O1", "-fPIC", "-c", src, "-o", shim], check=True)
        ldflags = f"-fsanitize=thread {shim} -Wl,-Bsymbolic"
    env = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "LDFLAGS", "LD_PRELOAD")}
    cmds = [
        [
            "cmake", "-S", REPO, "-B", bdir, "-G", "Ninja",
            "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_BUILD_TYPE=Debug",
            f"-DCMAKE_C_FLAGS_DEBUG={cflags}",
            f"-DCMAKE_SHARED_LINKER_FLAGS={ldflags}",
            "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
            *(["-DCMAKE_DISABLE_FIND_PACKAGE_OpenMP=TRUE"] if flavour == "serial" else []),
        ],
        ["cmake", "--build", bdir, "-j", str(jobs)],
    ]
    for c in cmds:
        p = subprocess.run(c, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError(f"{' '.join(c)}\n{p.stdout[-4000:]}")
    src = os.path.join(REPO, "src", "deepwave")
    for f in os.listdir(src):
        if f.endswith(".py"):
            shutil.copy(os.path.join(src, f), os.path.join(pkg, f))
        elif os.path.exists(os.path.join(src, f, "__init__.py")):
            shutil.copytree(os.path.join(src, f), os.path.join(pkg, f), dirs_exist_ok=True)
    lib = "libdeepwave_C.so"
    os.replace(os.path.join(bdir, lib), os.path.join(pkg, lib))
    shutil.rmtree(bdir)
    return os.path.dirname(pkg)


def gcc_file(name):
    return subprocess.run(
        ["/usr/bin/gcc", f"-print-file-name={name}"], stdout=subprocess.PIPE, text=True, check=True
    ).stdout.strip()
