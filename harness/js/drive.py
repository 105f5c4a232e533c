"""Distributes the cases of a JavaScript harness over node processes."""
import concurrent.futures as cf, json, os, subprocess, sys

argv = sys.argv[1:]
src = argv.pop(0)
get = lambda k, d=None: argv[argv.index(k) + 1] if k in argv else d
thorough = ["--thorough"] if "--thorough" in argv else []
LIMIT = 3600 if thorough else 300
node = ["node", "--expose-gc", "--no-warnings", src] + thorough
subprocess.run(["./jsref"] + (["thorough"] if thorough else []), check=True, timeout=600)


def run(a, b, extra=(), limit=LIMIT):
    out = "res-%d-%d%s.json" % (a, b, "l" if extra else "")
    if os.path.exists(out):
        os.unlink(out)
    try:
        p = subprocess.run(node + ["--a", str(a), "--b", str(b), "--out", out] + list(extra), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=limit)
    except subprocess.TimeoutExpired:
        return dict(hang=int(open(out + ".cur").read()), done=0)
    if not os.path.exists(out):
        cur = int(open(out + ".cur").read()) if os.path.exists(out + ".cur") and os.path.getsize(out + ".cur") else None
        return dict(crash=cur, log=p.stdout.decode("utf-8", "replace")[-3000:], done=0)
    d = json.load(open(out))
    os.unlink(out)
    return d


def fail(msg):
    print(msg)
    sys.exit(3)


c = get("--case")
if c is not None:
    b = int(c)
    d = run(int(get("--from", b)), b + 1, ["--log"], 120)
    v = d.get("viol") or ([b, "no answer: %r" % d] if "hang" in d or "crash" in d else None)
    if d.get("err"):
        fail(d["err"])
    txt = "%s\n--- trace ---\n%s\n" % (v[1], d.get("text", "")) if v else "case %d: no violation" % b
    open(get("--trace", "trace.txt"), "w").write(txt)
    print(txt)
    sys.exit(10 if v else 0)
r = subprocess.run(node + ["--count", "--out", "count.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
viol = None
if not os.path.exists("count.json"):
    # the module itself does not load
    log = r.stdout.decode("utf-8", "replace")[-3000:]
    json.dump(dict(total_cases=1, done=0, states=0, transitions=0, traces=0, families={"loading the module": 1}, aux={},
                   known_seen=[], samples=[], violation={"case": 0, "from": 0, "family": "loading the module", "index": 0,
                                                         "reproduced": True, "msg": "the module does not load", "text": log}),
              open(get("--out"), "w"))
    sys.exit(1)
fams = json.load(open("count.json"))
total = sum(n for _, n in fams)
chunks, first = [], 0
W = min(8, os.cpu_count() or 4)
for name, n in fams:
    ch = max(1, -(-n // (W * 2)))
    chunks += [(first + i, min(first + i + ch, first + n)) for i in range(0, n, ch)]
    first += n
agg = dict(done=0, trans=0, traces=0, aux={})
states = set()
bad = []
with cf.ThreadPoolExecutor(W) as ex:
    for (a, b), d in zip(chunks, ex.map(lambda x: run(*x), chunks)):
        if d.get("err"):
            fail(d["err"])
        if "hang" in d:
            # alone, with more time, before calling it a hang
            e = run(d["hang"], d["hang"] + 1, (), 600)
            if "hang" in e or e.get("viol"):
                bad.append((d["hang"], d["hang"], "the call does not return"))
            else:
                fail("time limit")
            continue
        if "crash" in d:
            if d["crash"] is None:
                fail(d["log"])
            bad.append((d["crash"], a, "the JavaScript engine ended: " + d["log"][-500:]))
            continue
        if d["viol"]:
            bad.append((d["viol"][0], a, d["viol"][1]))
        agg["done"] += d["done"]
        agg["trans"] += d["trans"]
        agg["traces"] += d["traces"]
        states.update(d["states"])
        for k, v in d["aux"].items():
            agg["aux"][k] = agg["aux"].get(k, 0) + v


def where(c):
    for name, n in fams:
        if c < n:
            return name, c
        c -= n


if bad:
    c, a, msg = min(bad)
    rep, text = False, ""
    for frm in (c, a):
        d = run(frm, c + 1, ["--log"], 700)
        if d.get("viol") or "hang" in d or "crash" in d:
            rep, text = True, "%s\n--- trace ---\n%s" % ((d.get("viol") or [0, msg])[1], d.get("text", ""))
            break
    viol = {"case": c, "from": frm, "family": where(c)[0], "index": where(c)[1], "reproduced": rep, "msg": msg[:2000], "text": text[:20000]}
samples, first = [], 0
if not viol:
    for name, n in fams:
        if n:
            d = run(first + n // 3, first + n // 3 + 1, ["--log"], 120)
            samples.append(dict(family=name, case=n // 3, trace=d.get("text", "")[:1500]))
        first += n
json.dump(dict(total_cases=total, done=agg["done"], states=len(states), transitions=agg["trans"], traces=agg["traces"],
               families=dict(fams), aux=agg["aux"], known_seen=[], samples=samples, violation=viol), open(get("--out"), "w"))
sys.exit(1 if viol else 0)
