// C22: heap ownership of the JavaScript binding; every load and store of the
// wasm code is checked against the live blocks
import { add, check, FakeRegistry, finalise, hash, log, main, real, registries, stats, thorough, Violation } from "./common.mjs";
globalThis.FinalizationRegistry = FakeRegistry;
globalThis.__wasm = "checked.wasm";
const lib = await import("./index.mjs");
const H = globalThis.__heap;
const { Spot } = lib;
let baseSize = 0; // blocks the module keeps for itself
let perDetector = 0; // blocks of one detector
const GOOD = [3, -1, 4, 1, -5, 9, 2, 6, -5.5, 3.5, 5];
const good = Float64Array.from(GOOD);
const view = (() => {
  const b = new Float64Array(30).fill(7);
  b.set(GOOD, 9);
  return b.subarray(9, 9 + GOOD.length);
})();
const long = Float64Array.from({ length: 3000 }, (_, i) => ((i * 7919) % 1009) / 100);
// an operation: what it does to the current detector, and how many heap requests fail
const OPS = {
  "new small": (w) => w.make({ q: 0.01, level: 0.75, maxExcess: 3 }),
  "new low": (w) => w.make({ q: 0.02, low: 1, level: 0.5, maxExcess: 1, discardAnomalies: 0 }),
  "new default": (w) => w.make({ q: 1e-3 }),
  "new bad q": (w) => w.make({ q: 0.5 }, true),
  "new bad level": (w) => w.make({ q: 0.01, level: 2 }, true),
  "new nan q": (w) => w.make({ q: NaN }, true),
  "new nan level": (w) => w.make({ q: 0.01, level: NaN }, true),
  "new no memory": (w) => w.make({ q: 0.01, maxExcess: 2 ** 28 }, true),
  "new 2^29": (w) => w.make({ q: 0.01, maxExcess: 2 ** 29 }, true),
  "new capacity 0": (w) => w.make({ q: 0.01, maxExcess: 0 }, true),
  "fit": (w) => w.call(() => w.s.fit(good)),
  "fit view": (w) => w.call(() => w.s.fit(view)),
  "fit short": (w) => w.call(() => w.s.fit(new Float64Array([1, 2])), true),
  "fit empty": (w) => w.call(() => w.s.fit(new Float64Array(0)), true),
  "fit nan": (w) => w.call(() => w.s.fit(new Float64Array(6).fill(NaN)), "any"),
  "fit constant": (w) => w.call(() => w.s.fit(new Float64Array(9).fill(2.5)), "any"),
  "step excess": (w) => w.call(() => w.s.step(w.mid())),
  "step many": (w) => w.call(() => { for (let i = 0; i < 6; i++) w.s.step(w.mid() * (1 + i / 100)); }),
  "step nan": (w) => w.call(() => w.s.step(NaN), "any"),
  "queries": (w) => w.call(() => [w.s.quantile(1e-4), w.s.probability(w.mid()), w.s.quantile(NaN), w.s.anomaly_threshold(), w.s.excess_threshold()]),
  "error text": (w) => w.call(() => [lib.libspotError(1003), lib.libspotError(7), lib.libspotVersion()]),
  "finalise": (w) => w.drop(),
};
const NAMES = Object.keys(OPS);
class World {
  constructor(what) {
    this.what = what;
    this.s = null;
    this.all = [];
    this.failed = false; // an injected heap failure was consumed by this operation
  }
  mid() {
    const t = this.s.excess_threshold(), z = this.s.anomaly_threshold();
    return Number.isFinite(t + z) ? (t + z) / 2 : 3;
  }
  make(o, mustFail) {
    let s = null, e = null;
    try {
      s = new Spot(o);
    } catch (x) {
      e = x;
    }
    this.judge(e, mustFail, () => `new Spot(${JSON.stringify(o)})`);
    if (s) {
      this.all.push(s);
      this.s = s;
    }
  }
  call(f, mustFail) {
    if (!this.s) return;
    let e = null;
    try {
      f();
    } catch (x) {
      e = x;
    }
    this.judge(e, mustFail, () => "call");
  }
  judge(e, mustFail, name) {
    stats.trans++;
    if (e instanceof Violation) throw e;
    if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) throw new Violation(`${this.what()}: ${e}`);
    this.err = e;
    if (this.injected) return;
    if (mustFail === "any") return;
    check(!mustFail === (e === null), () => `${this.what()}: ${name()} ${e ? "threw " + e : "was accepted"}`);
  }
  drop() {
    if (!this.s) return;
    stats.trans++;
    const before = H.live.size;
    const n = finalise(this.s);
    check(n > 0, () => `${this.what()}: the detector is not registered for finalisation`);
    this.all.splice(this.all.indexOf(this.s), 1);
    this.s = this.all.at(-1) ?? null;
  }
  expected() {
    return this.all.length * perDetector + baseSize;
  }
  audit() {
    H.check();
    check(H.errors.length === 0, () => `${this.what()}: ${H.errors.join("; ")}`);
    check(H.live.size === this.expected(), () => `${this.what()}: ${H.live.size - baseSize} blocks live with ${this.all.length} detectors`);
    const v = [H.live.size];
    for (const d of this.all) {
      const b = H.bytes(d.ptr);
      if (b) v.push(...new Uint32Array(b.buffer, 0, b.length >> 2).subarray(0, 24));
    }
    hash(...v);
  }
  end() {
    while (this.all.length) {
      this.s = this.all.at(-1);
      this.drop();
    }
    this.audit();
    for (const r of registries) check(r.cells.length === 0, () => `${this.what()}: ${r.cells.length} registrations left`);
    stats.traces++;
  }
}
// warm up: what the module itself may keep (nothing today), what a detector owns
try {
  const s = new Spot({ q: 0.01, level: 0.75, maxExcess: 3 });
  s.fit(good);
  s.step(4);
  try { new Spot({ q: 4 }); } catch {}
  try { s.fit(new Float64Array(1)); } catch {}
  lib.libspotError(1000);
  lib.libspotVersion();
  finalise(s);
  baseSize = H.live.size;
  const t = new Spot({ q: 0.01, level: 0.75, maxExcess: 3 });
  perDetector = H.live.size - baseSize;
  finalise(t);
} catch {}
add("one detector from construction to finalisation leaves nothing", 1, () => {
  check(H.errors.length === 0, () => H.errors.join("; "));
  check(perDetector > 0 && H.live.size === baseSize, `${perDetector} blocks per detector, ${H.live.size - baseSize} left after finalisation`);
  check(baseSize <= 4, `${baseSize} blocks left after finalisation of the first detector`);
  stats.traces++;
});
function reset() {
  H.errors.length = 0;
  H.failAt = -1;
}
function run(seq, mode, prefix = []) {
  reset();
  H.growAlways = mode === 1;
  H.reuse = mode !== 2;
  let done = [];
  const w = new World(() => done.join(", ") + ["", " (the heap grows at every request)", " (no reuse of freed blocks)"][mode]);
  for (const o of prefix.concat(seq)) {
    done.push(o);
    OPS[o](w);
    log(() => `${o}: ${w.err ?? "ok"}, ${H.live.size} blocks`);
    w.audit();
  }
  done.push("end");
  w.end();
}
const sequences = (depth, names) => ({
  count: names.length ** 2,
  fn: (mode, prefix) => (i) => {
    const a = names[i % names.length], b = names[Math.floor(i / names.length)];
    const rec = (seq) => {
      if (seq.length === depth) return run(seq, mode, prefix);
      for (const n of names) rec([...seq, n]);
    };
    rec([b, a]);
  },
});
for (const mode of [0, 1]) {
  const D = thorough ? 4 : 3;
  const s = sequences(D, NAMES);
  if (mode === 0 || thorough) add(`all sequences of ${D} operations${mode ? ", heap growing at every request" : ""}`, s.count, s.fn(mode, []));
  const t = sequences(D - 1, NAMES);
  add(`a detector, fitted, then all sequences of ${D - 1} operations${mode ? ", heap growing at every request" : ""}`, t.count, t.fn(mode, ["new small", "fit"]));
}
{
  const R = ["new small", "new bad q", "new no memory", "fit", "fit short", "step many", "finalise"];
  const D = thorough ? 6 : 5;
  const s = sequences(D, R);
  add(`all sequences of ${D} operations over ${R.length}`, s.count, s.fn(0, []));
}
// --- each heap request refused in turn
const HIST = [[], ["new small", "fit constant"], ["new small"], ["new small", "fit"], ["new small", "fit", "step many", "new low", "fit view"], ["new default", "fit short"], ["new small", "fit", "finalise"]];
add("each heap request refused in turn: histories x operations x request", HIST.length * NAMES.length, (i) => {
  const h = HIST[Math.floor(i / NAMES.length)], o = NAMES[i % NAMES.length];
  for (const grow of [0, 1])
    for (let at = 0; at < 4; at++) {
      reset();
      H.growAlways = grow === 1;
      const w = new World(() => `${[...h, o].join(", ")} with heap request ${at} of the last call refused`);
      for (const x of h) OPS[x](w);
      w.audit();
      const copies = w.all.map((s) => [H.bytes(s.ptr), s]);
      const n0 = H.nmalloc;
      const count = w.all.length;
      w.injected = true;
      H.failAt = at;
      w.err = null;
      OPS[o](w);
      const hit = H.nmalloc - n0 > at;
      H.failAt = -1;
      w.injected = false;
      log(() => `${w.what()}: ${H.nmalloc - n0} requests, ${w.err ?? "ok"}`);
      if (hit) {
        check(w.err instanceof Error, () => `${w.what()}: reported success`);
        check(w.all.length === count, () => `${w.what()}: a detector was made`);
        if (at === 0) for (const [b, s] of copies) check(b === null || Buffer.compare(b, H.bytes(s.ptr)) === 0, () => `${w.what()}: an existing detector has changed`);
      }
      w.audit();
      // life goes on
      OPS["new small"](w);
      OPS.fit(w);
      OPS["step many"](w);
      w.audit();
      w.end();
      if (!hit) break;
    }
});
// --- sizes: every capacity and every training size
add("every maxExcess 1..80: filled twice over", 80, (i) => {
  reset();
  H.growAlways = false;
  const cap = i + 1;
  const w = new World(() => `maxExcess ${cap}`);
  w.make({ q: 0.01, level: 0.75, maxExcess: cap });
  w.call(() => w.s.fit(good));
  for (let k = 0; k < 2 * cap + 2; k++) w.call(() => w.s.step(w.mid()));
  w.audit();
  w.call(() => w.s.fit(view));
  w.audit();
  w.end();
});
add("every training size 0..130, own buffer and view", 131, (i) => {
  for (const v of [0, 1, 2]) {
    reset();
    H.growAlways = v === 2;
    const w = new World(() => `training of ${i} values${v ? " in a view" : ""}`);
    w.make({ q: 0.01, level: 0.75, maxExcess: 5 });
    const d = v ? Float64Array.from(long.subarray(0, i + 20)).subarray(20) : long.slice(0, i);
    w.call(() => w.s.fit(d), "any");
    w.audit();
    w.call(() => w.s.fit(d), "any");
    w.audit();
    w.end();
  }
});
const BIG = [500, 511, 512, 513, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16385, 32768, 32769, 65535, 65536, 65537];
add("large training sets: sizes x own buffer, view, growing heap", BIG.length * 3, (i) => {
  const n = BIG[Math.floor(i / 3)], v = i % 3;
  reset();
  H.growAlways = v === 2;
  const w = new World(() => `training of ${n} values${v ? " in a view" : ""}`);
  w.make({ q: 0.001, level: 0.98, maxExcess: 50 });
  const b = Float64Array.from({ length: n + 20 }, (_, k) => ((k * 7919) % 10007) / 100);
  const d = v ? b.subarray(20) : b.slice(0, n);
  w.call(() => w.s.fit(d));
  w.audit();
  w.call(() => w.s.step(w.mid()));
  w.audit();
  w.end();
});
// --- the engine's own garbage collector finalises unreachable detectors
add("real garbage collection of unreachable detectors", 3, async (i) => {
  reset();
  H.growAlways = false;
  globalThis.FinalizationRegistry = real;
  const fresh = await import("./index.mjs?" + i);
  globalThis.FinalizationRegistry = FakeRegistry;
  const heap = H;
  const n0 = heap.live.size;
  (function () {
    for (let k = 0; k < 20; k++) {
      const s = new fresh.Spot({ q: 0.01, level: 0.75, maxExcess: 4 });
      if (i > 0) s.fit(good);
      if (i > 1) for (let j = 0; j < 9; j++) s.step(s.excess_threshold() + 0.1 * j);
      if (i > 0) try { new fresh.Spot({ q: 3 }); } catch {}
    }
  })();
  for (let k = 0; k < 200 && heap.live.size > n0; k++) {
    globalThis.gc();
    await new Promise((r) => setTimeout(r, 10));
  }
  heap.check();
  check(heap.errors.length === 0, () => `garbage collection: ${heap.errors.join("; ")}`);
  check(heap.live.size === n0, () => `garbage collection of 20 detectors leaves ${heap.live.size - n0} blocks`);
  stats.traces++;
  stats.trans += 20;
});
Object.defineProperty(stats.aux, "wasm_loads_and_stores_checked", { enumerable: true, get: () => H.accesses });
await main();
