// C21: the JavaScript binding on the 32-bit build replays the native traces
import fs from "node:fs";
import { add, check, FakeRegistry, finalise, hash, log, main, same, stats, thorough, Violation } from "./common.mjs";
globalThis.FinalizationRegistry = FakeRegistry;
globalThis.__wasm = "plain.wasm";
const lib = await import("./index.mjs");
const H = globalThis.__heap;
const { Spot } = lib;
const f64file = (p) => {
  const b = fs.readFileSync(p);
  return new Float64Array(b.buffer.slice(b.byteOffset, b.byteOffset + b.length));
};
const index = f64file("index.bin");
const tfd = fs.openSync("traces.bin", "r");
const caseData = (c) => {
  const n = (index[c + 1] - index[c]) * 8;
  const b = new Float64Array(n / 8);
  fs.readSync(tfd, new Uint8Array(b.buffer), 0, n, index[c] * 8);
  return b;
};
const CTOR = 1, FIT = 2, STEP = 3, QUANT = 4, PROB = 5, SELECT = 6, ERRTXT = 7, VERS = 8, FINAL = 9;
// error texts as the C library has them
const texts = new Map();
const text = (code) => texts.get(code);
const carriers = [
  (d) => Float64Array.from(d),
  (d) => { const b = new Float64Array(d.length + 3).fill(1e9); b.set(d, 2); return b.subarray(2, 2 + d.length); },
  (d) => { const b = new Float64Array(d.length + 9).fill(-7e8); b.set(d, 0); return b.subarray(0, d.length); },
  (d) => { const b = new ArrayBuffer(d.length * 8 + 64); new Float64Array(b).fill(NaN); const v = new Float64Array(b, 16, d.length); v.set(d); return v; },
  (d) => { const v = new Float64Array(new SharedArrayBuffer(d.length * 8 + 8), 8, d.length); v.set(d); return v; },
  (d) => { class V extends Float64Array {} return V.from(d); },
  (d) => { const b = new Float64Array(3 * d.length + 3).fill(55); b.set(d, d.length + 1); return b.subarray(1).subarray(d.length, 2 * d.length); },
  (d) => { const v = new Float64Array(new ArrayBuffer(d.length * 8, { maxByteLength: d.length * 8 + 160 })); v.set(d); return v; },
];
const attempt = (f) => {
  try {
    return [f(), null];
  } catch (e) {
    return [undefined, e];
  }
};
function replay(c) {
  const d = caseData(c);
  const det = [];
  let cur = 0;
  const objs = [];
  H.errors.length = 0;
  for (let p = 0; p < d.length; ) {
    const len = d[p], op = d[p + 1], a = d.subarray(p + 2, p + len - 2);
    const z = d[p + len - 2], t = d[p + len - 1];
    p += len;
    stats.trans++;
    let s = det[cur];
    let what;
    const status = (r, e, code, okval) => {
      if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) throw new Violation(`${what}: ${e}`);
      if (code < 0) {
        check(e !== null, () => `${what}: gave ${r}, C returns the status ${code}`);
        check(e instanceof Error && e.message === text(-code), () => `${what}: threw ${e}, C says "${text(-code)}"`);
      } else {
        check(e === null, () => `${what}: threw ${e}, C accepts`);
        check(okval === undefined || r === okval, () => `${what}: gave ${r}, C gives ${okval}`);
      }
    };
    if (op === CTOR) {
      const o = { q: a[0] };
      if (a[1] & 1) o.low = a[2];
      if (a[1] & 2) o.discardAnomalies = a[3];
      if (a[1] & 4) o.level = a[4];
      if (a[1] & 8) o.maxExcess = a[5];
      else if (c % 2) o.maxExcess = undefined;
      what = `new Spot(${JSON.stringify(o)})`;
      const [r, e] = attempt(() => new Spot(o));
      status(r, e, a[6]);
      if (r) {
        det[cur] = s = r;
        objs.push(r);
      }
    } else if (op === FIT) {
      const data = a.slice(2, 2 + a[1]);
      what = `fit(carrier ${a[0]}, [${data.slice(0, 8)}${data.length > 8 ? ",..." : ""}])`;
      const arr = carriers[a[0]](data);
      const [r, e] = attempt(() => s.fit(arr));
      status(r, e, a[2 + a[1]], a[2 + a[1]]);
      for (let i = 0; i < data.length; i++) check(same(arr[i], data[i]), () => `${what}: the training data were changed`);
    } else if (op === STEP) {
      what = `step(${a[0]})`;
      const [r, e] = attempt(() => s.step(a[0]));
      status(r, e, a[1], a[1]);
    } else if (op === QUANT || op === PROB) {
      const m = op === QUANT ? "quantile" : "probability";
      what = `${m}(${a[0]})`;
      const [r, e] = attempt(() => s[m](a[0]));
      check(e === null, () => `${what}: threw ${e}`);
      check(same(r, a[1]), () => `${what}: gave ${r}, C gives ${a[1]}`);
    } else if (op === SELECT) {
      cur = a[0];
      s = det[cur];
      what = `detector ${cur}`;
    } else if (op === FINAL) {
      what = "finalisation";
      check(finalise(s) > 0, "a detector is not registered for finalisation");
      objs.splice(objs.indexOf(s), 1);
      det[cur] = s = undefined;
    } else {
      const txt = String.fromCharCode(...a.slice(2, 2 + a[1]));
      what = op === ERRTXT ? `libspotError(${a[0]})` : "libspotVersion()";
      const [r, e] = attempt(() => (op === ERRTXT ? lib.libspotError(a[0]) : lib.libspotVersion()));
      check(e === null, () => `${what}: threw ${e}`);
      check(r === txt, () => `${what}: gave "${r}", C gives "${txt}"`);
      s = undefined;
    }
    log(() => `${what} ok`);
    if (s) {
      const [az, e1] = attempt(() => s.anomaly_threshold());
      const [et, e2] = attempt(() => s.excess_threshold());
      check(e1 === null && e2 === null, () => `${what}: reading a threshold threw ${e1 ?? e2}`);
      check(same(az, z), () => `${what}: anomaly_threshold() is then ${az}, ${z} in C`);
      check(same(et, t), () => `${what}: excess_threshold() is then ${et}, ${t} in C`);
      hash(az, et, s.quantile(1e-3));
    }
  }
  stats.traces++;
  for (const o of objs) finalise(o);
}
// fill the table of error texts from the reference
const fams = fs.readFileSync("families.txt", "utf8").trim().split("\n").map((l) => l.split("\t"));
for (let c = 0; c < Number(fams[0][0]); c++) {
  const d = caseData(c);
  if (d[1] === ERRTXT) texts.set(d[2], String.fromCharCode(...d.subarray(4, 4 + d[3])));
}
add("constants and interface", 1, () => {
  check(lib.NORMAL === 0 && lib.EXCESS === 1 && lib.ANOMALY === 2, `constants ${lib.NORMAL} ${lib.EXCESS} ${lib.ANOMALY}`);
  check(lib.default === lib.Spot, "the default export is not Spot");
  check(lib.spotSize() === globalThis.__module._spot_size(), "spotSize()");
  const s = new Spot({ q: 0.01, level: 0.75, maxExcess: 5 });
  check(s.fit(Float64Array.from([3, -1, 4, 1, -5, 9, 2, 6, -5.5, 3.5, 5])) === 0, "fit does not return 0");
  check(s.step(s.anomaly_threshold() + 1) === lib.ANOMALY, "step beyond the anomaly threshold is not ANOMALY");
  check(s.step(s.excess_threshold()) === lib.EXCESS, "step at the excess threshold is not EXCESS");
  check(s.step(s.excess_threshold() - 1) === lib.NORMAL, "step below the excess threshold is not NORMAL");
  finalise(s);
  stats.traces++;
});
let first = 0;
for (const [n, name] of fams) {
  const base = first;
  add(name, Number(n), (i) => {
    H.growAlways = (base + i) % 16 === 5 && i < 600; // the views of the heap are renewed now and then
    replay(base + i);
  });
  first += Number(n);
}
await main();
