"""Builds the Python extension of the working tree (instrumented) and the
reference C library; returns the command that explores."""
import os, shutil


def build(sub, part, ctx):
    REPO, VERIF, sh, NoAnswer = ctx["REPO"], ctx["VERIF"], ctx["sh"], ctx["NoAnswer"]
    tree = os.path.join(sub, "tree")
    os.mkdir(tree)
    for d in ("include", "src"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(tree, d))
    os.mkdir(os.path.join(tree, "python"))
    for f in ("Makefile", ".clang-format", "doxyfile"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            shutil.copy(p, tree)
    for f in sorted(os.listdir(os.path.join(REPO, "python"))):
        if f.endswith((".c", ".h")):
            shutil.copy(os.path.join(REPO, "python", f), os.path.join(tree, "python"))
    sh(["make", "CC=gcc", "dist/spot.h"], cwd=tree)
    py = "/opt/vp/venv/bin/python"
    if not os.path.exists(py):
        py = "/usr/bin/python3"
    inc = sh([py, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"]).strip()
    objs = ctx["build_objects"](sub, "gcc")
    mod = []
    for f in sorted(os.listdir(os.path.join(tree, "python"))):
        if f.endswith(".c"):
            o = os.path.join(sub, "mod_" + f[:-2] + ".o")
            sh(["gcc", "-O2", "-g", "-fPIC", "-std=c99", "-DPy_LIMITED_API=0x03060000",
                '-DVERSION="%s"' % ctx["version"](), "-I" + inc, "-I" + os.path.join(tree, "include"),
                "-I" + os.path.join(tree, "dist"), "-c", os.path.join(tree, "python", f), "-o", o])
            mod.append(o)
    shim = os.path.join(sub, "pyshim.o")
    sh(["gcc", "-O2", "-fPIC", "-c", os.path.join(VERIF, "harness", "pyshim.c"), "-o", shim])
    ext = os.path.join(sub, "libspot.abi3.so")
    sh(["gcc", "-shared", "-o", ext] + mod + objs + [shim, "-Wl," + ",".join(
        "--wrap=" + f for f in ("malloc", "calloc", "realloc", "free"))])
    ref = os.path.join(sub, "libref.so")
    ro = os.path.join(sub, "ref.o")
    sh(["gcc", "-O2", "-fPIC", "-I" + os.path.join(REPO, "include"), "-c",
        os.path.join(VERIF, "harness", "pyref.c"), "-o", ro])
    sh(["gcc", "-shared", "-o", ref, ro] + objs + ["-Wl,-Bsymbolic"])
    return [py, "-B", "-s", "-W", "ignore", os.path.join(VERIF, "harness", part["src"])]
