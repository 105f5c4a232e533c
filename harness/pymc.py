"""Bounded exhaustive exploration runner (Python side of mc.hpp): families of
cases, chunks in forked processes, replay of the first violation."""
import json, os, pickle, signal, sys, tempfile, time, traceback


class Violation(Exception):
    pass


class Runner:
    def __init__(self, argv):
        self.thorough = "--thorough" in argv
        get = lambda k, d=None: argv[argv.index(k) + 1] if k in argv else d
        self.out = get("--out")
        self.tracefile = get("--trace", "trace.txt")
        self.case = get("--case")
        self.frm = get("--from")
        self.workers = int(get("--workers", os.cpu_count() or 4))
        self.known = [k for k in os.environ.get("MC_KNOWN", "").split(";") if k]
        self.families = []
        self.trans = self.traces = 0
        self.states = set()
        self.aux = {}
        self.seen = set()
        self.logging = False
        self.logtext = []
        self.case_seconds = 120

    def add(self, name, count, fn, chunk=None):
        self.families.append((name, count, fn, chunk))

    def log(self, s):
        if self.logging:
            self.logtext.append(s)
            if len(self.logtext) > 400:
                del self.logtext[:200]

    def state(self, *k):
        self.states.add(hash(k) & 0xffffffffffff)

    def finding(self, key, msg):
        if key in self.known:
            self.seen.add(key)
        else:
            raise Violation(msg)

    def locate(self, c):
        for name, count, fn, ch in self.families:
            if c < count:
                return name, fn, c
            c -= count
        raise IndexError

    def run_case(self, c):
        name, fn, i = self.locate(c)
        signal.alarm(self.case_seconds)
        try:
            fn(i)
        except (Violation, OSError):
            raise
        except Exception as e:
            # every call whose failure is allowed is guarded in the case itself
            at = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation("a call that has to succeed raised %s: %s (`%s`)" % (type(e).__name__, e, at.line))

    def replay(self, a, b, path):
        for c in range(a, b + 1):
            self.logging = c == b
            self.logtext = []
            try:
                self.run_case(c)
            except Violation as v:
                if c == b:
                    with open(path, "w") as f:
                        f.write("%s\n--- trace ---\n%s\n" % (v, "\n".join(self.logtext)))
                    return 10
            except Exception:
                if c == b:
                    with open(path, "w") as f:
                        f.write(traceback.format_exc())
                    return 11
        return 0

    def main(self):
        total = sum(f[1] for f in self.families)
        if self.case is not None:
            b = int(self.case)
            a = int(self.frm) if self.frm is not None else b
            r = self.replay(a, b, self.tracefile)
            print(open(self.tracefile).read() if r else "case %d: no violation" % b)
            sys.stdout.flush()
            os._exit(r)
        chunks, first = [], 0
        for name, count, fn, ch in self.families:
            ch = ch or max(1, count // 160)
            for i in range(0, count, ch):
                chunks.append((first + i, min(ch, count - i)))
            first += count
        tmp = tempfile.mkdtemp(dir=os.getcwd())
        running, nxt, best, done = {}, 0, None, 0
        infra = None
        agg = dict(trans=0, traces=0, aux={}, seen=set())
        states = set()

        def better(c, ch, msg):
            nonlocal best
            if best is None or c < best[0]:
                best = (c, ch, msg)
        while nxt < len(chunks) or running:
            while nxt < len(chunks) and len(running) < self.workers:
                a, n = chunks[nxt]
                if best is not None and a > best[0]:
                    nxt = len(chunks)
                    break
                path = os.path.join(tmp, str(nxt))
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    res = dict(err=None, viol=None, done=0)
                    cur = path + ".cur"
                    fd = os.open(cur, os.O_CREAT | os.O_WRONLY)
                    try:
                        for c in range(a, a + n):
                            os.pwrite(fd, b"%20d" % c, 0)
                            try:
                                self.run_case(c)
                            except Violation as v:
                                res["viol"] = (c, str(v))
                                break
                            res["done"] += 1
                    except BaseException:
                        res["err"] = traceback.format_exc()
                    signal.alarm(0)
                    res.update(trans=self.trans, traces=self.traces, aux=self.aux, seen=self.seen, states=self.states)
                    with open(path, "wb") as f:
                        pickle.dump(res, f)
                    os._exit(0)
                running[pid] = (path, a)
                nxt += 1
            if not running:
                break
            pid, st = os.wait()
            if pid not in running:
                continue
            path, a = running.pop(pid)
            if st != 0:
                c = int(open(path + ".cur").read())
                sig = st & 127
                if sig == signal.SIGKILL:
                    infra = "worker killed"
                    continue
                better(c, a, "the call did not return within %d s" % self.case_seconds if sig == signal.SIGALRM else
                       "the interpreter crashed (%s)" % (signal.Signals(sig).name if sig else "exit %d" % (st >> 8)))
                continue
            res = pickle.load(open(path, "rb"))
            os.unlink(path)
            if res["err"]:
                infra = res["err"]
            if res["viol"]:
                better(res["viol"][0], a, res["viol"][1])
            done += res["done"]
            agg["trans"] += res["trans"]
            agg["traces"] += res["traces"]
            agg["seen"] |= res["seen"]
            states |= res["states"]
            for k, v in res["aux"].items():
                agg["aux"][k] = agg["aux"].get(k, 0) + v
        viol = None
        if best:
            rep = False
            frm = best[0]
            for frm in (best[0], best[1], best[1]):
                pid = os.fork()
                if pid == 0:
                    os._exit(self.replay(frm, best[0], self.tracefile))
                _, st = os.waitpid(pid, 0)
                if st:
                    rep = True
                    break
            name, _, idx = self.locate(best[0])
            text = open(self.tracefile).read() if os.path.exists(self.tracefile) else ""
            viol = {"case": best[0], "from": frm, "family": name, "index": idx, "reproduced": rep,
                    "msg": best[2][:2000], "text": text[:20000]}
        samples = []
        first = 0
        for name, count, fn, ch in self.families:
            if not viol and count:
                pth = os.path.join(tmp, "sample")
                pid = os.fork()
                if pid == 0:
                    self.logging, self.logtext = True, []
                    try:
                        self.run_case(first + count // 3)
                    except BaseException:
                        pass
                    open(pth, "w").write("\n".join(self.logtext)[:1500])
                    os._exit(0)
                os.waitpid(pid, 0)
                if os.path.exists(pth):
                    samples.append(dict(family=name, case=count // 3, trace=open(pth).read()))
            first += count
        if self.out:
            json.dump(dict(total_cases=total, done=done, states=len(states), transitions=agg["trans"],
                           traces=agg["traces"], state_table_saturated=0, infra=1 if infra else 0,
                           families={f[0]: f[1] for f in self.families}, aux=agg["aux"],
                           known_seen=sorted(agg["seen"]), samples=samples, violation=viol),
                      open(self.out, "w"))
        if infra and not viol:
            print(infra)
            sys.stdout.flush()
            os._exit(3)
        os._exit(1 if viol else 0)
