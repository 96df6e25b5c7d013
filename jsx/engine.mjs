// Concolic symbolic execution for the instrumented TypeScript client. Every operation of the client's code on a
// symbolic value comes here; every branch on one is decided by the current concrete input and recorded, and z3 is
// asked for an input that takes the other side until none is left.
import { spawnSync } from 'node:child_process';

export const W = 320; // integers: signed, wide enough that no sum or product of the inputs wraps
const mask = (w) => (1n << BigInt(w)) - 1n;
const sgn = (v, w) => (v >> BigInt(w - 1) ? v - (1n << BigInt(w)) : v);

// ---- terms ------------------------------------------------------------------------------------------------
// {s: 'b' | width, op, a: [terms], v (constant), n (variable name), hi, lo}
export const K = (v, w) => ({ s: w, op: 'c', v: BigInt.asUintN(w, BigInt(v)) });
export const T = { s: 'b', op: 'c', v: true }, F = { s: 'b', op: 'c', v: false };
const isC = (t) => t.op === 'c';
export function mk(op, a, s, hi, lo) {
  const t = { s, op, a, hi, lo };
  return a.every(isC) ? (s === 'b' ? (ev(t, {}) ? T : F) : K(ev(t, {}), s)) : t;
}
export const not = (t) => (isC(t) ? (t.v ? F : T) : t.op === 'not' ? t.a[0] : mk('not', [t], 'b'));
export const and = (...l) => { l = l.filter((t) => t !== T); return l.includes(F) ? F : l.length === 0 ? T : l.length === 1 ? l[0] : mk('and', l, 'b'); };
export const or = (...l) => not(and(...l.map(not)));
export const eq = (x, y) => (x === y ? T : mk('=', [x, y], 'b'));
export const ext = (t, hi, lo) => (hi === t.s - 1 && lo === 0 ? t : mk('ext', [t], hi - lo + 1, hi, lo));
export const zx = (t, w) => (t.s === w ? t : t.s > w ? ext(t, w - 1, 0) : mk('zx', [t], w, w - t.s));
export const sx = (t, w) => (t.s === w ? t : t.s > w ? ext(t, w - 1, 0) : mk('sx', [t], w, w - t.s));
export const cat = (...l) => l.reduce((x, y) => mk('cat', [x, y], x.s + y.s));
const bv = (op) => (x, y) => mk(op, [x, y], x.s);
const cmp = (op) => (x, y) => mk(op, [x, y], 'b');

export function ev(t, m) {
  switch (t.op) {
    case 'c': return t.v;
    case 'v': return m[t.n] ?? (t.s === 'b' ? false : 0n);
    case 'not': return !ev(t.a[0], m);
    case 'and': return t.a.every((x) => ev(x, m));
  }
  const x = ev(t.a[0], m), w = t.a[0].s;
  const y = t.a[1] && ev(t.a[1], m);
  const U = (v) => BigInt.asUintN(t.s, v);
  switch (t.op) {
    case '=': return x === y;
    case 'ext': return (x >> BigInt(t.lo)) & mask(t.s);
    case 'zx': return x;
    case 'sx': return U(sgn(x, w));
    case 'cat': return (x << BigInt(t.a[1].s)) | y;
    case 'bvadd': return U(x + y);
    case 'bvsub': return U(x - y);
    case 'bvmul': return U(x * y);
    case 'bvsdiv': return U(sgn(x, w) / sgn(y, w));
    case 'bvsrem': return U(sgn(x, w) % sgn(y, w));
    case 'bvand': return x & y;
    case 'bvor': return x | y;
    case 'bvxor': return x ^ y;
    case 'bvshl': return y >= BigInt(w) ? 0n : U(x << y);
    case 'bvashr': return U(sgn(x, w) >> (y >= BigInt(w) ? BigInt(w) : y));
    case 'bvslt': return sgn(x, w) < sgn(y, w);
    case 'bvsle': return sgn(x, w) <= sgn(y, w);
  }
  throw new Error('ev ' + t.op);
}

function smt(t, vars, memo, defs) {
  if (t.op === 'v') { vars.set(t.n, t.s); return t.n; }
  if (isC(t)) return t.s === 'b' ? String(t.v) : `(_ bv${t.v} ${t.s})`;
  if (memo.has(t)) return memo.get(t);
  const a = t.a.map((x) => smt(x, vars, memo, defs));
  const o = { ext: `(_ extract ${t.hi} ${t.lo})`, zx: `(_ zero_extend ${t.hi})`, sx: `(_ sign_extend ${t.hi})`, cat: 'concat' }[t.op] ?? t.op;
  const name = `t${memo.size}`;
  defs.push(`(define-fun ${name} () ${t.s === 'b' ? 'Bool' : `(_ BitVec ${t.s})`} (${o} ${a.join(' ')}))`);
  memo.set(t, name);
  return name;
}

export const stats = { queries: 0, sat: 0, unsat: 0, unknown: 0, solver_s: 0, max_query_s: 0, steps: 0 };

/** Decides a list of queries, each a conjunction of terms: {sat: true|false|null, model}. */
export function solve(queries) {
  if (!queries.length) return [];
  const vars = new Map(), memo = new Map(), defs = [];
  const body = queries.map((q) => q.map((t) => smt(t, vars, memo, defs)));
  const names = [...vars.keys()];
  let s = '(set-option :timeout 20000)\n';
  for (const [n, w] of vars) s += `(declare-const ${n} ${w === 'b' ? 'Bool' : `(_ BitVec ${w})`})\n`;
  s += defs.join('\n') + '\n';
  body.forEach((q, i) => {
    s += `(echo "Q${i}")\n(push)\n${q.map((t) => `(assert ${t})`).join('\n')}\n(check-sat)\n`;
    if (names.length) s += `(get-value (${names.join(' ')}))\n`;
    s += '(pop)\n';
  });
  const t0 = process.hrtime.bigint();
  const r = spawnSync('z3', ['-in', '-smt2'], { input: s, maxBuffer: 1 << 28, encoding: 'utf8' });
  const dt = Number(process.hrtime.bigint() - t0) / 1e9;
  stats.solver_s += dt;
  if (r.error || r.stdout == null) throw new Error('z3: ' + r.error);
  return r.stdout.split(/^"?Q\d+"?$/m).slice(1).map((c) => {
    stats.queries++;
    stats.max_query_s = Math.max(stats.max_query_s, dt / queries.length);
    const st = c.trim().split(/\s/)[0];
    if (st === 'unsat') { stats.unsat++; return { sat: false }; }
    if (st !== 'sat') { stats.unknown++; return { sat: null, why: c.trim().slice(0, 200) }; }
    stats.sat++;
    const model = {};
    for (const m of c.matchAll(/\((\w+) (true|false|#x[0-9a-f]+|#b[01]+|\(_ bv(\d+) \d+\))\)/g)) {
      model[m[1]] = m[2] === 'true' ? true : m[2] === 'false' ? false : m[3] ? BigInt(m[3]) : BigInt('0' + m[2].slice(1));
    }
    return { sat: true, model };
  });
}

// ---- one run ----------------------------------------------------------------------------------------------
export class Stop extends Error {} // a path that is not explored further
export class Unsupported extends Error {}
let run = null; // {model, pc: [{t, flip}], bound, asserts, inputs}
const MAX_BRANCHES = 400;

export function branch(t) {
  if (isC(t)) return t.v;
  if (!run) throw new Unsupported('symbolic value outside a run');
  stats.steps++;
  if (run.pc.length > MAX_BRANCHES) { run.cut = 'more than ' + MAX_BRANCHES + ' branches on one path'; throw new Stop(run.cut); }
  const v = ev(t, run.model);
  run.pc.push(v ? t : not(t));
  return v;
}
export function input(name, w) {
  if (run.concrete) return run.model[name] ?? (w === 'b' ? false : 0n);
  run.inputs.push(name);
  return { s: w, op: 'v', n: name };
}
export const symbolic = () => !run.concrete;
export function assertion(label, t) {
  run.asserts.push({ label, t, n: run.pc.length });
}
export function reached(l) { run.reach.push(l); }

// ---- values the client's code sees --------------------------------------------------------------------------
export class Sym {
  [Symbol.toPrimitive]() { return pin(this); }
  toString() { return String(pin(this)); }
  valueOf() { return pin(this); }
}
export class SInt extends Sym { constructor(t, kind) { super(); this.t = t; this.kind = kind; } toString() { return String(pin(this)); } }
export class SBool extends Sym { constructor(t) { super(); this.t = t; } }
export class SKey extends Sym {
  constructor(t) { super(); this.t = t; }
  toString() { return this; }
  valueOf() { return this; }
}
export const int = (t, kind) => (isC(t) ? (kind === 'number' ? Number(sgn(t.v, W)) : sgn(t.v, W)) : new SInt(t, kind));
export const bool = (t) => (isC(t) ? t.v : new SBool(t));

/** Continue with the current concrete value of a symbolic one; the other values are other paths. */
export function pin(x) {
  const v = ev(x.t, run.model);
  if (run.concrete) return raw(x, v);
  if ((run.pins = (run.pins ?? 0) + 1) > 40) { run.cut = 'more than 40 pinned values on one path'; throw new Stop(run.cut); }
  const c = x instanceof SBool ? (v ? T : F) : K(v, x.t.s);
  branch(x instanceof SBool ? x.t : eq(x.t, c));
  return raw(x, v);
}
const raw = (x, v) => (x instanceof SBool ? v : x instanceof SKey ? b58(v) : x.kind === 'number' ? Number(sgn(v, W)) : sgn(v, W));

const ABC = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
export function b58(v) { // 32 bytes, most significant first
  let s = '', n = v;
  while (n > 0n) { s = ABC[Number(n % 58n)] + s; n /= 58n; }
  const hex = v.toString(16).padStart(64, '0');
  for (let i = 0; i < 64 && hex.slice(i, i + 2) === '00'; i += 2) s = '1' + s;
  return s;
}
export function unb58(s) {
  if (typeof s !== 'string' || !s.length) return null;
  let n = 0n, z = 0;
  for (const c of s) { const d = ABC.indexOf(c); if (d < 0) return null; n = n * 58n + BigInt(d); }
  while (s[z] === '1') z++;
  const bytes = n === 0n ? 0 : Math.ceil(n.toString(16).length / 2);
  return bytes + z === 32 ? n : null;
}
const keyTerm = (x) => { if (x instanceof SKey) return x.t; const v = unb58(x); return v == null ? null : K(v, 256); };
const isNum = (x) => x instanceof SInt || typeof x === 'number' || typeof x === 'bigint';
const kindOf = (x) => (x instanceof SInt ? x.kind : typeof x);
export const intTerm = (x) => (x instanceof SInt ? x.t : K(BigInt(x), W));
const whole = (x) => x instanceof SInt || typeof x === 'bigint' || Number.isInteger(x);

export function same(x, y, loose) { // === as a term
  if (x?.symKind && x !== y) x = x.symKind().array ? x : x.key;
  if (y?.symKind && x !== y) y = y.symKind().array ? y : y.key;
  if (!(x instanceof Sym) && !(y instanceof Sym)) return (loose ? x == y : x === y) ? T : F;
  if (x instanceof SBool || y instanceof SBool) {
    const t = (v) => (v instanceof SBool ? v.t : typeof v === 'boolean' ? (v ? T : F) : null), a = t(x), b = t(y);
    return a && b ? or(and(a, b), and(not(a), not(b))) : F;
  }
  if (x instanceof SKey || y instanceof SKey) { const a = keyTerm(x), b = keyTerm(y); return a && b ? eq(a, b) : F; }
  if (!isNum(x) || !isNum(y) || (!loose && kindOf(x) !== kindOf(y)) || !whole(x) || !whole(y)) return F;
  return eq(intTerm(x), intTerm(y));
}
export function truth(x) { // as a term
  if (x instanceof SBool) return x.t;
  if (x instanceof SKey) return T;
  if (x instanceof SInt) return not(eq(x.t, K(0, W)));
  return x ? T : F;
}
const SAFE = K(1n << 53n, W), NSAFE = K(-(1n << 53n), W);
function num(t, kind) {
  const r = int(t, kind);
  if (r instanceof SInt && kind === 'number' && !branch(and(mk('bvsle', [t, SAFE], 'b'), mk('bvsle', [NSAFE, t], 'b')))) {
    branch(eq(ext(t, 0, 0), K(1, 1))); // an odd value of that size is not a number: look at one of those first
    return pin(r);
  }
  return r;
}
const native = {
  '+': (a, b) => a + b, '-': (a, b) => a - b, '*': (a, b) => a * b, '/': (a, b) => a / b, '%': (a, b) => a % b, '**': (a, b) => a ** b,
  '&': (a, b) => a & b, '|': (a, b) => a | b, '^': (a, b) => a ^ b, '<<': (a, b) => a << b, '>>': (a, b) => a >> b, '>>>': (a, b) => a >>> b,
  '<': (a, b) => a < b, '<=': (a, b) => a <= b, '>': (a, b) => a > b, '>=': (a, b) => a >= b,
};
export function bin(op, x, y) {
  stats.steps++;
  if (op === '===') return bool(same(x, y));
  if (op === '!==') return bool(not(same(x, y)));
  if (op === '==') return bool(same(x, y, true));
  if (op === '!=') return bool(not(same(x, y, true)));
  if (!(x instanceof Sym) && !(y instanceof Sym)) return native[op](x, y);
  if (!isNum(x) || !isNum(y)) return native[op](x instanceof Sym ? pin(x) : x, y instanceof Sym ? pin(y) : y);
  const rel = { '<': (a, b) => cmp('bvslt')(a, b), '<=': (a, b) => cmp('bvsle')(a, b), '>': (a, b) => cmp('bvslt')(b, a), '>=': (a, b) => cmp('bvsle')(b, a) }[op];
  if (rel) {
    if (!whole(x) || !whole(y)) return native[op](x instanceof Sym ? pin(x) : x, y instanceof Sym ? pin(y) : y);
    return bool(rel(intTerm(x), intTerm(y)));
  }
  const k = kindOf(x);
  if (k !== kindOf(y)) throw new TypeError('Cannot mix BigInt and other types, use explicit conversions');
  if (!whole(x) || !whole(y)) return native[op](x instanceof Sym ? pin(x) : x, y instanceof Sym ? pin(y) : y);
  let a = intTerm(x), b = intTerm(y);
  const arith = { '+': 'bvadd', '-': 'bvsub', '*': 'bvmul' }[op];
  if (arith) return num(bv(arith)(a, b), k);
  if ((op === '/' && k === 'bigint') || op === '%') {
    if (branch(eq(b, K(0, W)))) { if (k === 'bigint') throw new RangeError('Division by zero'); return NaN; }
    return num(bv(op === '/' ? 'bvsdiv' : 'bvsrem')(a, b), k);
  }
  if (['&', '|', '^', '<<', '>>', '>>>'].includes(op)) {
    if (k === 'number') {
      a = (op === '>>>' ? zx : sx)(ext(a, 31, 0), W);
      b = op.length === 1 ? sx(ext(b, 31, 0), W) : zx(ext(b, 4, 0), W);
    } else if (op.length > 1) {
      if (y instanceof SInt || y < 0n) return native[op](pin(new SInt(a, k)), y instanceof SInt ? pin(y) : y);
    }
    const r = bv({ '&': 'bvand', '|': 'bvor', '^': 'bvxor', '<<': 'bvshl', '>>': 'bvashr', '>>>': 'bvashr' }[op])(a, b);
    return num(k === 'number' && op === '<<' ? sx(ext(r, 31, 0), W) : r, k);
  }
  return native[op](x instanceof Sym ? pin(x) : x, y instanceof Sym ? pin(y) : y);
}
export function un(op, x) {
  if (op === '!') return bool(not(truth(x)));
  if (!(x instanceof SInt)) { const v = x instanceof Sym ? pin(x) : x; return op === '-' ? -v : op === '+' ? +v : ~v; }
  if (op === '-') return num(mk('bvsub', [K(0, W), x.t], W), x.kind);
  if (op === '~') return x.kind === 'bigint' ? int(mk('bvsub', [K(-1, W), x.t], W), 'bigint') : bin('^', x, -1);
  if (x.kind === 'bigint') throw new TypeError('Cannot convert a BigInt value to a number');
  return x;
}
const stack = [];
/** What the instrumented code calls. */
export const $ = {
  bin, un,
  t: (x) => branch(truth(x)),
  push: (x) => { stack.push(x); return x; },
  pop: () => stack.pop(),
  nn: (x) => x !== null && x !== undefined,
  typeof: (x) => (x instanceof SInt ? x.kind : x instanceof SBool ? 'boolean' : x instanceof SKey ? 'string' : x?.symKind ? x.symKind().typeof : typeof x),
  inc: (x, d) => (kindOf(x) === 'bigint' ? bin('+', x, BigInt(d)) : bin('+', x instanceof Sym ? x : Number(x), d)),
  upd: (o, k, op, v) => (o[k] = bin(op, o[k], v)),
  incp: (o, k, d, post) => { const old = o[k]; o[k] = $.inc(old, d); return post ? old : o[k]; },
  idx: (o, k) => (k instanceof Sym ? pickIndex(o, k) : o[k]),
  m: (o, name, args) => {
    const f = o[name];
    if (Array.isArray(o) && (name === 'includes' || name === 'indexOf') && [...o, ...args].some((x) => x instanceof Sym)) {
      for (let i = 0; i < o.length; i++) if (branch(same(o[i], args[0]))) return name === 'includes' ? true : i;
      return name === 'includes' ? false : -1;
    }
    // a predicate: what it returns is a condition
    if (Array.isArray(o) && typeof args[0] === 'function') return f.call(o, (...a) => $.t(args[0].apply(args[1], a)), args[1]);
    return f.apply(o, args);
  },
};
function pickIndex(o, k) {
  if (Array.isArray(o)) {
    for (let i = 0; i < o.length; i++) if (branch(same(k, kindOf(k) === 'bigint' ? BigInt(i) : i))) return o[i];
    return undefined;
  }
  for (const n of Object.keys(o)) if (isNum(k) ? /^\d+$/.test(n) && branch(same(k, kindOf(k) === 'bigint' ? BigInt(n) : Number(n))) : branch(same(k, n))) return o[n];
  return undefined;
}
// ---- globals of the instrumented code ------------------------------------------------------------------------
class SMap extends Map {
  find(k) { for (const x of super.keys()) if (branch(same(x, k))) return [x]; return null; }
  mixed(k) { return k instanceof Sym || [...super.keys()].some((x) => x instanceof Sym); }
  get(k) { if (!this.mixed(k)) return super.get(k); const f = this.find(k); return f ? super.get(f[0]) : undefined; }
  has(k) { return this.mixed(k) ? !!this.find(k) : super.has(k); }
  set(k, v) { const f = this.mixed(k) && this.find(k); return super.set(f ? f[0] : k, v); }
}
const conv = {
  BigInt: (x) => (x instanceof SInt ? int(x.t, 'bigint') : x instanceof SBool ? ($.t(x) ? 1n : 0n) : BigInt(x instanceof Sym ? pin(x) : x)),
  Number: (x) => (x instanceof SInt ? num(x.t, 'number') : x instanceof SBool ? ($.t(x) ? 1 : 0) : Number(x instanceof Sym ? pin(x) : x)),
  String: (x) => (x instanceof SKey ? x : String(x instanceof Sym ? pin(x) : x)),
  Boolean: (x) => bool(truth(x)),
};
const wrapFn = (f, base) => new Proxy(base, { apply: (_t, _s, a) => (a.length ? f(...a) : base(...a)) });
class U8 extends Array {
  constructor(...a) {
    if (a.length === 1 && typeof a[0] === 'number') { super(); for (let i = 0; i < a[0]; i++) this.push(0); }
    else { super(); for (const x of a[0] ?? []) this.push(byte(x)); }
  }
  static get [Symbol.species]() { return U8; }
  static from(x, f) { return new U8(Array.from(x, f)); }
  static of(...x) { return new U8(x); }
  set(src, off = 0) { src.forEach((x, i) => { this[off + i] = byte(x); }); }
  subarray(a, b) { return this.slice(a, b); }
  slice(a, b) { const r = new U8(); const n = this.length; for (let i = a ?? 0; i < Math.min(b ?? n, n); i++) r[i - (a ?? 0)] = this[i]; return r; }
}
const byte = (x) => (x instanceof SInt ? int(zx(ext(x.t, 7, 0), W), 'number') : typeof x === 'number' ? x & 255 : x);
export const globals = {
  $, Map: SMap, Uint8Array: U8,
  BigInt: wrapFn(conv.BigInt, BigInt), Number: wrapFn(conv.Number, Number), String: wrapFn(conv.String, String), Boolean: wrapFn(conv.Boolean, Boolean),
  Array: new Proxy(Array, { get: (t, k) => (k === 'isArray' ? (x) => (x?.symKind ? x.symKind().array : Array.isArray(x)) : Reflect.get(t, k)) }),
};
export { U8 };

// ---- exploration ---------------------------------------------------------------------------------------------
/** Runs `body` on every feasible path. body(mode) performs the inputs, calls and assertions. */
export async function explore(name, body, concreteBody, opt) {
  const out = { name, paths: 0, forks: 0, asserts: {}, reach: {}, cexs: [], errors: [], incomplete: [], validated: 0, samples: [], ends: {} };
  const todo = [{ model: {}, bound: 0 }];
  const seen = new Set();
  while (todo.length) {
    if (out.paths >= opt.maxPaths || Date.now() > opt.deadline) { out.incomplete.push(`${name}: ${todo.length} branches left when the ${out.paths >= opt.maxPaths ? 'path' : 'time'} limit was reached`); break; }
    const { model, bound } = todo.pop();
    run = { model, pc: [], asserts: [], reach: [], inputs: [], concrete: false };
    stack.length = 0;
    let end = 'ok';
    try { await body(); } catch (e) {
      if (e instanceof Stop) end = 'stop'; else if (e instanceof Unsupported) { out.errors.push(`${name}: ${e.message}`); end = 'unsupported'; } else { end = 'throw ' + e.message; run.asserts.push({ label: 'completes', t: F, n: run.pc.length, why: String(e.stack).slice(0, 600) }); }
    }
    const r = run;
    out.paths++;
    if (r.cut) out.incomplete.push(`${name}: ${r.cut}`);
    const sig = r.pc.map((t) => t.op === 'not' ? '0' : '1').join('') + ':' + r.pc.length;
    out.ends[end.slice(0, 60)] = (out.ends[end.slice(0, 60)] ?? 0) + 1;
    r.reach.forEach((l) => { out.reach[l] = (out.reach[l] ?? 0) + 1; });
    // assertions first, then the other sides of the branches
    const qs = [], what = [];
    for (const a of r.asserts) {
      const o = (out.asserts[a.label] ??= { by_solver: 0, by_rewriting: 0 });
      if (isC(a.t)) { o.by_rewriting++; if (!a.t.v) { qs.push(r.pc.slice(0, a.n)); what.push({ a }); } } else { o.by_solver++; qs.push([...r.pc.slice(0, a.n), not(a.t)]); what.push({ a }); }
    }
    for (let i = bound; i < r.pc.length; i++) { qs.push([...r.pc.slice(0, i), not(r.pc[i])]); what.push({ flip: i }); }
    const ans = solve(qs);
    ans.forEach((x, i) => {
      const w = what[i];
      if (x.sat === null) { out.incomplete.push(`${name}: solver gave no answer (${w.a ? w.a.label : 'branch'}): ${x.why}`); return; }
      if (!x.sat) return;
      if (w.a) { if (!out.cexs.some((c) => c.label === w.a.label)) out.cexs.push({ label: w.a.label, model: { ...model, ...x.model }, why: w.a.why }); } else { out.forks++; todo.push({ model: { ...model, ...x.model }, bound: w.flip + 1 }); }
    });
    // the same inputs in the client as shipped, on concrete values
    const nat = await runConcrete(concreteBody, model);
    const bad = nat.asserts.filter((a) => !a.t.v).map((a) => a.label);
    const here = r.asserts.filter((a) => !ev(a.t, model)).map((a) => a.label);
    if (String([...new Set(bad)].sort()) === String([...new Set(here)].sort()) && String(nat.reach) === String(r.reach)) {
      out.validated++;
      if (out.samples.length < 2) out.samples.push({ job: name, inputs: show(model), end, reach: r.reach });
    } else if (end !== 'stop' && end !== 'unsupported') out.errors.push(`${name}: the run on concrete values differs from the symbolic path: symbolic ${JSON.stringify([here, r.reach])}, native ${JSON.stringify([bad, nat.reach, nat.asserts.filter((a) => a.why).map((a) => a.why)])}`);
    if (out.cexs.length && opt.stopAtFirst) break;
  }
  for (const c of out.cexs) {
    const nat = await runConcrete(concreteBody, c.model);
    c.confirmed = nat.asserts.some((a) => a.label === c.label && !a.t.v);
    c.native = nat.asserts.filter((a) => !a.t.v).map((a) => a.label + (a.why ? ': ' + a.why : ''));
    c.inputs = show(c.model);
    delete c.model;
  }
  return out;
}
export const show = (m) => Object.fromEntries(Object.entries(m).map(([k, v]) => [k, typeof v === 'bigint' ? '0x' + v.toString(16) : v]));
export async function runConcrete(body, model) {
  run = { model, pc: [], asserts: [], reach: [], inputs: [], concrete: true };
  stack.length = 0;
  try { await body(); } catch (e) { run.asserts.push({ label: 'completes', t: F, n: 0, why: String(e.stack).slice(0, 600) }); }
  return run;
}
