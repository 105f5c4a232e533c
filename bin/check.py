#!/usr/bin/env python3
"""Runs the check of one property: builds the code under test from /repo's
working tree together with the harness, explores, writes the evidence file.

  check.py ID [--tier quick|thorough] [--replay FILE]

exit 0: held on everything explored; 1: VIOLATION line; 2: the check could not
give an answer (build failure, infrastructure)."""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from registry import CHECKS  # noqa: E402

ENV = dict(os.environ)
for k in ("CFLAGS", "CPPFLAGS", "LDFLAGS", "MAKEFLAGS", "CPATH", "LIBRARY_PATH", "PYTHONPATH"):
    ENV.pop(k, None)
ENV["LC_ALL"] = "C.UTF-8"


class NoAnswer(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise NoAnswer("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode("utf-8", "replace")[-6000:]))
    return r.stdout.decode("utf-8", "replace")


def version():
    for line in open(os.path.join(REPO, "Makefile"), encoding="utf-8"):
        m = re.match(r"VERSION\s*:?=\s*(\S+)", line)
        if m:
            return m.group(1)
    return "UNDEFINED"


CC = {
    "gcc": ["gcc", "-O3", "-std=c99", "-fPIC"],
    "asan": ["clang", "-O0", "-g", "-std=c99", "-fno-omit-frame-pointer",
             "-fsanitize=address,undefined,float-cast-overflow",
             # (a null pointer plus zero is harmless)
             "-fno-sanitize=float-divide-by-zero,function,vptr,pointer-overflow",
             "-fno-sanitize-recover=all"],
    "cov": ["clang", "-O1", "-std=c99", "-fPIC", "-fsanitize-coverage=trace-pc-guard"],
    "mem": ["clang", "-O1", "-std=c99", "-fPIC",
            "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"],
}
CXX = {
    "gcc": ["g++", "-O2", "-std=c++17"],
    "asan": ["clang++", "-O1", "-g", "-std=c++17", "-fno-omit-frame-pointer",
             "-fsanitize=address", "-fno-sanitize-recover=all"],
    "cov": ["g++", "-O2", "-std=c++17"],
    "mem": ["g++", "-O2", "-std=c++17"],
}


def build_objects(work, variant, extra=(), ver=None):
    """compiles every source of /repo/src; returns the object files"""
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
    if not srcs:
        raise NoAnswer("no source in %s/src" % REPO)
    objs = []

    def one(s):
        o = os.path.join(work, variant + "_" + os.path.basename(s)[:-2] + ".o")
        sh(CC[variant] + list(extra) + ["-I" + os.path.join(REPO, "include"),
                                        '-DVERSION="%s"' % (ver or version()), "-c", s, "-o", o])
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    return objs


def build_cpp(work, spec):
    variant = spec.get("variant", "gcc")
    exe = os.path.join(work, "harness")
    with cf.ThreadPoolExecutor(2) as ex:
        fo = ex.submit(build_objects, work, variant, spec.get("cflags", ()), spec.get("version"))
        ho = os.path.join(work, "harness.o")
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness"),
               '-DREPO_VERSION="%s"' % (spec.get("version") or version())] + list(spec.get("cflags", ()))
        fh = ex.submit(sh, CXX[variant] + inc + ["-c", os.path.join(VERIF, "harness", spec["src"]), "-o", ho])
        objs = fo.result()
        fh.result()
    if spec.get("shared"):
        so = os.path.join(work, "libspotuut.so")
        sh(["gcc", "-shared", "-o", so] + objs + ["-Wl,-z,now", "-Wl,-z,relro"])
        sh(CXX[variant] + ["-o", exe, ho, so, "-Wl,-rpath," + work, "-Wl,-z,now", "-ldl", "-lm"] + spec.get("ldflags", []))
    else:
        sh(CXX[variant] + ["-o", exe, ho] + objs + ["-lm"] + spec.get("ldflags", []))
    return [exe]


def load_known(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--replay":
            replay = args.pop(0)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[pid]
    known = load_known(pid)
    work = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    t0 = time.time()
    rc = 2
    try:
        rc = run(pid, spec, tier, seed, known, work, replay, t0)
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
    except subprocess.TimeoutExpired as e:
        print("NO ANSWER: %s" % e)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(pid, spec, tier, seed, known, work, replay, t0):
    env = dict(ENV)
    env["MC_KNOWN"] = ";".join(known)
    env["VERIF_REPO"] = REPO
    env["VERIF_DIR"] = VERIF
    env.update(spec.get("env", {}))
    runs = []
    for i, part in enumerate(spec.get("parts", [spec])):
        sub = os.path.join(work, "p%d" % i)
        os.mkdir(sub)
        kind = part.get("kind", "cpp")
        if kind == "cpp":
            cmd = build_cpp(sub, part)
        else:
            mod = __import__(part["module"])
            cmd = mod.build(sub, part, dict(REPO=REPO, VERIF=VERIF, sh=sh, NoAnswer=NoAnswer,
                                            build_objects=build_objects, version=version, ENV=ENV))
        runs.append((i, sub, cmd))
    if replay:
        r = json.load(open(replay))
        i, sub, cmd = runs[r["part"]]
        c = cmd + ["--case", str(r["case"]), "--from", str(r["from"]), "--trace", os.path.join(sub, "trace.txt")]
        if r["tier"] == "thorough":
            c.append("--thorough")
        e = subprocess.run(c, cwd=sub, env=env)
        return 1 if e.returncode else 0
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, exhaustive=True,
               cases=0, families={}, counters={}, samples=[])
    viol = None
    seen = []
    for i, sub, cmd in runs:
        out = os.path.join(sub, "result.json")
        c = cmd + ["--out", out, "--trace", os.path.join(sub, "trace.txt")]
        if tier == "thorough":
            c.append("--thorough")
        e = subprocess.run(c, cwd=sub, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        log = e.stdout.decode("utf-8", "replace")
        if e.returncode not in (0, 1) or not os.path.exists(out):
            raise NoAnswer("exploration ended with code %d\n%s" % (e.returncode, log[-4000:]))
        d = json.load(open(out))
        cov["states"] += d["states"]
        cov["transitions"] += d["transitions"]
        cov["traces_validated_against_impl"] += d["traces"]
        cov["cases"] += d["done"]
        cov["families"].update(d["families"])
        for k, v in d.get("aux", {}).items():
            cov["counters"][k] = cov["counters"].get(k, 0) + v
        cov["samples"] += d["samples"]
        if d.get("state_table_saturated"):
            cov["state_table_saturated"] = cov.get("state_table_saturated", 0) + d["state_table_saturated"]
        if d["done"] != d["total_cases"]:
            cov["exhaustive"] = False
        seen += d.get("known_seen", [])
        if d["violation"]:
            viol = dict(d["violation"], part=i, tier=tier, property=pid, log=log[-6000:])
            break
    for k in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, known.get(k, k)))
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=spec["assumptions"], wall_s=round(time.time() - t0, 2),
              violations=1 if viol else 0, known_findings=seen)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    print("%s %s: %d states, %d transitions, %d executions of the real code in %.1f s" % (
        pid, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], time.time() - t0))
    if viol:
        rp = os.path.join(VERIF, "evidence", "replay", pid + ".json")
        json.dump(viol, open(rp, "w"), indent=1)
        print("  " + viol["msg"])
        print("  family: %s, case %s%s" % (viol["family"], viol["index"],
              "" if viol["reproduced"] else " (not reproduced by the replay)"))
        print("\n".join("    " + l for l in viol["text"].splitlines()[-14:]))
        if viol["log"].strip():
            print("\n".join("    | " + l for l in viol["log"].splitlines()[-30:]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    main()
