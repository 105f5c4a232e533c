// stand-in for the file emscripten generates: same interface (cwrap, ccall,
// HEAP views, _malloc, _free, memory growth), on an instrumented heap
import fs from "node:fs";
const H = (globalThis.__heap = {
  live: new Map(), // address -> size
  free: new Map(), // size -> addresses
  errors: [],
  nmalloc: 0,
  nfree: 0,
  failAt: -1,
  growAlways: false,
  reuse: true,
  checkAccess: true,
  accesses: 0,
  inMalloc: 0,
  fresh: 0,
});
const G = 32;
let memory, brk, heapBase, shadow, module;

const err = (s) => {
  if (H.errors.length < 20) H.errors.push(s);
};
const views = () => {
  const b = memory.buffer;
  module.HEAPU8 = new GuardU8(b);
  module.HEAP8 = new Int8Array(b);
  module.HEAP16 = new Int16Array(b);
  module.HEAPU16 = new Uint16Array(b);
  module.HEAP32 = new Int32Array(b);
  module.HEAPU32 = new Uint32Array(b);
  module.HEAPF32 = new Float32Array(b);
  module.HEAPF64 = new Float64Array(b);
  if (shadow.length < b.byteLength) {
    const s = new Uint8Array(b.byteLength * 2);
    s.set(shadow);
    shadow = s;
  }
};
const inside = (a, n) => {
  for (const [p, size] of H.live) if (a >= p && a + n <= p + size) return true;
  return false;
};
class GuardU8 extends Uint8Array {
  static get [Symbol.species]() {
    return Uint8Array;
  }
  slice(a = 0, b = this.length) {
    if (!inside(a, b - a)) err(`reads bytes ${a}..${b} of the heap, not inside a live block`);
    return super.slice(a, b);
  }
  subarray(a = 0, b = this.length) {
    if (!inside(a, b - a)) err(`takes bytes ${a}..${b} of the heap, not inside a live block`);
    return new Uint8Array(this.buffer, a, b - a);
  }
  set(src, off = 0) {
    if (!inside(off, src.length)) err(`writes ${src.length} bytes at ${off} of the heap, not inside a live block`);
    super.set(src, off);
  }
  fill(v, a = 0, b = this.length) {
    if (!inside(a, b - a)) err(`fills bytes ${a}..${b} of the heap, not inside a live block`);
    return super.fill(v, a, b);
  }
}
const u8 = () => new Uint8Array(memory.buffer);
function grow(bytes) {
  const pages = Math.ceil(bytes / 65536);
  try {
    memory.grow(pages);
  } catch {
    return false;
  }
  views();
  return true;
}
function malloc(n) {
  n >>>= 0;
  H.nmalloc++;
  if (H.failAt === 0) {
    H.failAt = -1;
    return 0;
  }
  if (H.failAt > 0) H.failAt--;
  if (n > 256 * 1024 * 1024) return 0;
  if (H.growAlways) grow(65536);
  const size = Math.max(n, 1);
  const room = (size + 15) & ~15;
  let p;
  const f = H.free.get(room);
  if (H.reuse && f && f.length) p = f.pop();
  else {
    const shift = H.fresh++ % 2 ? 8 : 0; // addresses are multiples of 8, no more
    const need = brk + room + 2 * G + 16;
    if (need > memory.buffer.byteLength && !grow(need - memory.buffer.byteLength)) return 0;
    p = brk + G + shift;
    brk = need;
  }
  const m = u8();
  m.fill(0xc5, p - G, p);
  m.fill(0xaa, p, p + n);
  m.fill(0xc5, p + n, p + room + G);
  H.live.set(p, n);
  shadow.fill(1, p, p + n);
  return p;
}
function checkGuards(p, n) {
  const m = u8();
  const room = (Math.max(n, 1) + 15) & ~15;
  for (let i = p - G; i < p; i++) if (m[i] !== 0xc5) return err(`byte ${p - i} before the block of ${n} bytes at ${p} was overwritten`);
  for (let i = p + n; i < p + room + G; i++) if (m[i] !== 0xc5) return err(`byte ${i - p - n} after the block of ${n} bytes at ${p} was overwritten`);
}
function free(p) {
  p >>>= 0;
  H.nfree++;
  if (p === 0) return;
  if (!H.live.has(p)) return err(`frees ${p}, which is not a live block`);
  const n = H.live.get(p);
  checkGuards(p, n);
  H.live.delete(p);
  shadow.fill(0, p, p + n);
  u8().fill(0xdd, p, p + n);
  const room = (Math.max(n, 1) + 15) & ~15;
  if (!H.free.has(room)) H.free.set(room, []);
  H.free.get(room).push(p);
}
H.check = () => {
  for (const [p, n] of H.live) checkGuards(p, n);
  // freed memory is untouched
  const m = u8();
  for (const [room, ps] of H.free)
    for (const p of ps) {
      const k = Math.min(room, 4096);
      for (let i = 0; i < k; i++)
        if (m[p + i] !== 0xdd && m[p + i] !== 0xc5) {
          err(`byte ${i} of a freed block of ${room} bytes was written`);
          m[p + i] = 0xdd;
          break;
        }
    }
};
H.bytes = (p) => (p + spotStructSize() <= memory.buffer.byteLength ? u8().slice(p, p + spotStructSize()) : null);
const spotStructSize = () => module._spot_size();
H.staticBytes = () => u8().slice(0, 1024);

const access = (n, what) => (a) => {
  a >>>= 0;
  H.accesses++;
  if (a >= heapBase) {
    if (!shadow[a] || !shadow[a + n - 1]) err(`the wasm code ${what} ${n} bytes at ${a}, not inside a live block`);
  } else if (a < 1024) err(`the wasm code ${what} ${n} bytes at address ${a}`);
};
export default async function loadWASM() {
  module = {};
  H.live.clear();
  H.free.clear();
  globalThis.__module = module;
  shadow = new Uint8Array(1 << 22);
  const bytes = fs.readFileSync(globalThis.__wasm);
  const env = {
    malloc,
    free,
    realloc: (p, n) => {
      const q = malloc(n);
      if (q && p) {
        u8().copyWithin(q, p, p + Math.min(n >>> 0, H.live.get(p) ?? 0));
        free(p);
      }
      return q;
    },
    emscripten_run_script: () => {},
    __sanitizer_cov_trace_pc_guard: () => {},
    __sanitizer_cov_trace_pc_guard_init: () => {},
  };
  for (const n of [1, 2, 4, 8, 16]) {
    env["__sanitizer_cov_load" + n] = access(n, "reads");
    env["__sanitizer_cov_store" + n] = access(n, "writes");
  }
  const mod = await WebAssembly.compile(bytes);
  const { exports } = await WebAssembly.instantiate(mod, { env });
  memory = exports.memory;
  heapBase = exports.__heap_base.value;
  brk = (heapBase + 15) & ~15;
  views();
  for (const k of Object.keys(exports)) if (typeof exports[k] === "function") module["_" + k] = exports[k];
  module._malloc = malloc;
  module._free = free;
  const str = (p) => {
    const m = u8();
    let e = p;
    while (m[e]) e++;
    return new TextDecoder().decode(m.slice(p, e));
  };
  const call = (name, ret, types, args) => {
    const f = module["_" + name];
    if (!f) throw new Error("no exported function " + name);
    const tmp = [];
    const conv = (args ?? []).map((a, i) => {
      const t = types?.[i];
      if (t === "string" || t === "array") {
        const b = t === "string" ? new TextEncoder().encode(a + "\0") : Uint8Array.from(a);
        const p = malloc(b.length);
        u8().set(b, p);
        tmp.push([p, b, t]);
        return p;
      }
      return a;
    });
    const r = f(...conv);
    for (const [p, b, t] of tmp) free(p);
    return ret === "string" ? str(r) : ret === "boolean" ? Boolean(r) : r;
  };
  module.ccall = call;
  module.cwrap = (name, ret, types) => {
    if (!module["_" + name]) throw new Error("no exported function " + name);
    return (...a) => call(name, ret, types, a);
  };
  module.UTF8ToString = str;
  const T = { i8: "Int8", i16: "Int16", i32: "Int32", "*": "Uint32", float: "Float32", double: "Float64" };
  module.getValue = (p, t = "i8") => new DataView(memory.buffer)["get" + (T[t] ?? "Uint32")](p, true);
  module.setValue = (p, v, t = "i8") => new DataView(memory.buffer)["set" + (T[t] ?? "Uint32")](p, v, true);
  if (exports.__wasm_call_ctors) exports.__wasm_call_ctors();
  (module._main ?? module.___main_void ?? module.___original_main)?.(0, 0);
  return module;
}
