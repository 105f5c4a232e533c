// bounded exhaustive exploration, JavaScript side
import fs from "node:fs";
const argv = process.argv.slice(2);
const opt = (k, d) => (argv.includes(k) ? argv[argv.indexOf(k) + 1] : d);
export const thorough = argv.includes("--thorough");
export class Violation extends Error {}
export const check = (c, msg) => {
  if (!c) throw new Violation(typeof msg === "function" ? msg() : msg);
};
// a finalization registry the explorer drives
export const real = globalThis.FinalizationRegistry;
export const registries = [];
export class FakeRegistry {
  constructor(cb) {
    this.cb = cb;
    this.cells = [];
    registries.push(this);
  }
  register(target, held, token) {
    if (target === held) throw new TypeError("target and holdings must not be same");
    this.cells.push({ target, held, token });
  }
  unregister(token) {
    const n = this.cells.length;
    this.cells = this.cells.filter((c) => c.token === undefined || c.token !== token);
    return this.cells.length !== n;
  }
}
// what the engine does once the object is unreachable
export const finalise = (obj) => {
  let n = 0;
  for (const r of registries) {
    const mine = r.cells.filter((c) => c.target === obj);
    r.cells = r.cells.filter((c) => c.target !== obj);
    for (const c of mine) {
      r.cb(c.held);
      n++;
    }
  }
  return n;
};
export const stats = { trans: 0, traces: 0, states: new Set(), aux: {} };
let logging = false;
let text = [];
export const log = (s) => {
  if (logging) text.push(typeof s === "function" ? s() : s);
};
const f64 = new Float64Array(1);
const u32 = new Uint32Array(f64.buffer);
export const hash = (...v) => {
  let h = 2166136261;
  let g = 97;
  for (const x of v) {
    f64[0] = Number.isNaN(x) ? NaN : x;
    h = Math.imul(h ^ u32[0], 16777619);
    h = Math.imul(h ^ u32[1], 16777619);
    g = (Math.imul(g, 31) + h) | 0;
  }
  stats.states.add((h >>> 0) * 1048576 + ((g >>> 0) & 0xfffff));
};
export const bits = (x) => {
  f64[0] = Number.isNaN(x) ? NaN : x;
  return [u32[0], u32[1]];
};
export const same = (a, b) => typeof a === "number" && typeof b === "number" && Object.is(Number.isNaN(a) ? NaN : a, Number.isNaN(b) ? NaN : b);
const families = [];
export const add = (name, count, fn) => families.push({ name, count, fn });
const runCase = async (c) => {
  for (const f of families) {
    if (c < f.count) return await f.fn(c);
    c -= f.count;
  }
  throw new Error("no such case");
};
export const main = async () => {
  const out = opt("--out");
  if (argv.includes("--count")) {
    fs.writeFileSync(out, JSON.stringify(families.map((f) => [f.name, f.count])));
    process.exit(0);
  }
  const a = Number(opt("--a"));
  const b = Number(opt("--b"));
  const traceOnly = argv.includes("--log");
  const res = { done: 0, viol: null, err: null };
  const fd = fs.openSync(out + ".cur", "w");
  for (let c = a; c < b; c++) {
    fs.writeSync(fd, String(c).padStart(20), 0);
    logging = traceOnly && c === b - 1;
    text = [];
    try {
      await runCase(c);
      res.done++;
    } catch (e) {
      if (e instanceof Violation) res.viol = [c, e.message];
      else if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) res.viol = [c, "the wasm code trapped: " + e.message];
      else if (e?.fromBinding) res.viol = [c, e.message];
      else if (e?.code) res.err = String(e?.stack ?? e); // file system
      else res.viol = [c, "a call that has to succeed threw: " + String(e?.stack ?? e)];
      if (!(traceOnly && c < b - 1)) break;
    }
  }
  fs.writeFileSync(out, JSON.stringify({ ...res, trans: stats.trans, traces: stats.traces, states: [...stats.states], aux: stats.aux, text: text.slice(-400).join("\n") }));
  process.exit(0);
};
