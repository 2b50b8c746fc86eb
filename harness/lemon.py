"""Compiles /repo's Lemon extension from its current source and installs it."""

import importlib.util
import os
import subprocess
import sys
import sysconfig

from harness.core import BUILD, REPO, MachineryError, sha


def install():
    src = os.path.join(REPO, "flamingpy", "cpp", "lemonpy.cpp")
    with open(src, "rb") as f:
        tag = sha(f.read(), sys.version)
    out = os.path.join(BUILD, f"lemon-{tag}", "lemonpy.so")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + f".{os.getpid()}"
        cmd = [
            "g++", "-O1", "-shared", "-fPIC", "-std=c++17", "-fvisibility=hidden",
            "-I/opt/vp/cmake/pybind11/include", "-I" + sysconfig.get_paths()["include"],
            src, "-o", tmp,
        ]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise MachineryError("lemonpy.cpp does not compile: " + p.stderr[-800:])
        os.replace(tmp, out)
    import flamingpy.cpp

    # pybind11 caches the created module by its full name, and flamingpy/__init__.py
    # imports the prebuilt one: the fresh one is therefore loaded under another name.
    name = "flamingpy.cpp.lemonpy"
    spec = importlib.util.spec_from_file_location("verif_build.lemonpy", out)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    if mod.__file__ != out:
        raise MachineryError("the compiled Lemon extension was not loaded")
    sys.modules[name] = mod
    flamingpy.cpp.lemonpy = mod
    user = sys.modules.get("flamingpy.decoders.mwpm.lemon")
    if user is not None:
        user.lp = mod
