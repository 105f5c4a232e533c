"""Builds the wasm32 module and the TypeScript wrapper of the working tree, and
the native reference traces; returns the command that explores."""
import os, shutil, concurrent.futures as cf, glob, re


def build(sub, part, ctx):
    REPO, VERIF, sh, NoAnswer = ctx["REPO"], ctx["VERIF"], ctx["sh"], ctx["NoAnswer"]
    J = os.path.join(VERIF, "harness", "js")
    tree = os.path.join(sub, "tree")
    os.mkdir(tree)
    for d in ("include", "src"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(tree, d))
    shutil.copytree(os.path.join(REPO, "wasm"), os.path.join(tree, "wasm"),
                    ignore=shutil.ignore_patterns("node_modules", "dist", "types", "*.core.js", "bun.lockb"))
    for f in ("Makefile", ".clang-format", "doxyfile"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            shutil.copy(p, tree)
    sh(["make", "CC=gcc", "dist/spot.h"], cwd=tree)
    m = re.search(r"WASM_EXPORTED_FUNCTIONS\s*:?=\s*(\S+)", open(os.path.join(REPO, "Makefile"), encoding="utf-8").read())
    names = [n[1:] for n in (m.group(1).split(",") if m else
                             ["_spot_size", "_spot_new", "_spot_init", "_spot_fit", "_spot_step", "_spot_quantile",
                              "_spot_probability", "_spot_free", "_libspot_error", "_libspot_version",
                              "_set_allocators", "_main"])]
    names = [n for n in names if n not in ("malloc", "free")]
    clang = "/usr/bin/clang" if os.path.exists("/usr/bin/clang") else "clang"

    def wasm(name, extra):
        base = [clang, "--target=wasm32", "-std=c99", "-nostdlib", "-ffreestanding", "-I" + os.path.join(J, "inc"),
                "-I" + os.path.join(tree, "include"), '-DVERSION="%s"' % ctx["version"](), "-w"]
        objs = []
        jobs = [(s, extra) for s in sorted(glob.glob(os.path.join(tree, "src", "*.c")) +
                                           glob.glob(os.path.join(tree, "wasm", "*.c")))]
        jobs.append((os.path.join(J, "wasmlibc.c"), ["-O2", "-fno-builtin"]))

        def one(j):
            s, ex = j
            o = os.path.join(sub, name + "_" + os.path.basename(s)[:-2] + ".o")
            sh(base + ex + ["-c", s, "-o", o])
            return o
        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, jobs))
        out = os.path.join(sub, name + ".wasm")
        sh(["wasm-ld", "--no-entry", "--allow-undefined", "--export=__heap_base", "--export-if-defined=__wasm_call_ctors"] +
           ["--export=" + n if n != "main" else "--export-if-defined=main" for n in names] +
           ["--export-if-defined=__main_void", "--export-if-defined=__original_main"] + ["-o", out] + objs)
        return out
    wasm("plain", ["-O2"])
    if part.get("instrumented"):
        wasm("checked", ["-O1", "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"])
    es = "/opt/veriftools/node/node_modules/.bin/esbuild"
    sh([es if os.path.exists(es) else "esbuild", "index.ts", "--bundle", "--format=esm", "--external:./libspot.core.js",
        "--target=esnext", "--log-level=error", "--outfile=" + os.path.join(sub, "index.mjs")], cwd=os.path.join(tree, "wasm"))
    shutil.copy(os.path.join(J, "core.mjs"), os.path.join(sub, "libspot.core.js"))
    open(os.path.join(sub, "package.json"), "w").write('{"type": "module"}\n')
    for f in ("common.mjs", part["src"]):
        shutil.copy(os.path.join(J, f), sub)
    objs = ctx["build_objects"](sub, "gcc")
    exe = os.path.join(sub, "jsref")
    sh(["gcc", "-O2", "-std=c99", "-Werror=implicit-function-declaration", "-I" + os.path.join(REPO, "include"), os.path.join(J, "jsref.c")] + objs + ["-lm", "-o", exe])
    return ["python3", "-B", os.path.join(J, "drive.py"), part["src"]]
