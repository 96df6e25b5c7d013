// What the client uses of @metaplex-foundation/umi 0.8 and its serializers, which are not in the repository: their
// documented behaviour, on symbolic and on concrete values alike.
import { SInt, SKey, SBool, Sym, U8, W, K, T, F, int, bool, eq, zx, ext, cat, mk, same, branch, intTerm, b58, unb58, and, not } from './engine.mjs';

const isBytes = (x) => Array.isArray(x) || x instanceof Uint8Array;
const byteTerm = (b) => (b instanceof SInt ? ext(b.t, 7, 0) : K(BigInt(b), 8));
const t = (x) => (typeof x === 'boolean' ? x : branch(x instanceof SBool ? x.t : x));
const kind = (x) => (x instanceof SInt ? x.kind : typeof x);
/** Byte arrays: Uint8Array on concrete values. */
const mkBytes = (l, conc) => (conc ? Uint8Array.from(l) : U8.from(l));

export function makeUmi(concrete) {
  const bytes = (l) => mkBytes(l, concrete);
  // ---- serializers ------------------------------------------------------------------------------------------
  const uint = (name, size, big) => (opt = {}) => ({
    description: opt.description ?? name, fixedSize: size, maxSize: size,
    serialize(v) {
      if (kind(v) !== 'number' && kind(v) !== 'bigint') throw new TypeError(`${name}: not a number`);
      if (!(v instanceof SInt) && kind(v) === 'number' && !Number.isInteger(v)) throw new RangeError(`${name}: not an integer`);
      const x = intTerm(v), lim = K((1n << BigInt(8 * size)) - 1n, W);
      if (!t(and(mk('bvsle', [K(0, W), x], 'b'), mk('bvsle', [x, lim], 'b')))) throw new RangeError(`${name}: out of range`);
      const l = [];
      for (let i = 0; i < size; i++) l.push(int(zx(ext(x, 8 * i + 7, 8 * i), W), 'number'));
      return bytes(opt.endian === 'be' ? l.reverse() : l);
    },
    deserialize(b, off = 0) {
      const l = [...b.slice(off, off + size)];
      if (l.length < size) throw new RangeError(`${name}: not enough bytes`);
      if (opt.endian !== 'be') l.reverse();
      return [int(zx(cat(...l.map(byteTerm)), W), big ? 'bigint' : 'number'), off + size];
    },
  });
  const u8 = uint('u8', 1), u16 = uint('u16', 2), u32 = uint('u32', 4), u64 = uint('u64', 8, true), u128 = uint('u128', 16, true), u256 = uint('u256', 32, true);
  const flat = (ls) => bytes(ls.flatMap((x) => [...x]));
  const sum = (ss) => ss.reduce((a, s) => (a === null || s.fixedSize === null ? null : a + s.fixedSize), 0);
  const S = {
    u8, u16, u32, u64, u128, u256,
    bool: (opt = {}) => ({ fixedSize: 1, maxSize: 1, serialize: (v) => u8().serialize(t(v instanceof SBool ? v : !!v) ? 1 : 0), deserialize: (b, o = 0) => { const [v, p] = u8().deserialize(b, o); return [bool(same(v, 1)), p]; } }),
    unit: () => ({ fixedSize: 0, maxSize: 0, serialize: () => bytes([]), deserialize: (b, o = 0) => [undefined, o] }),
    publicKey: () => ({
      description: 'publicKey', fixedSize: 32, maxSize: 32,
      serialize(v) {
        const k = publicKey(v);
        const x = k instanceof SKey ? k.t : K(unb58(k), 256);
        return bytes(Array.from({ length: 32 }, (_, i) => int(zx(ext(x, 255 - 8 * i, 248 - 8 * i), W), 'number')));
      },
      deserialize(b, off = 0) {
        const l = [...b.slice(off, off + 32)];
        if (l.length < 32) throw new RangeError('publicKey: not enough bytes');
        const x = cat(...l.map(byteTerm));
        return [x.op === 'c' ? b58(x.v) : new SKey(x), off + 32];
      },
    }),
    struct: (fields, opt = {}) => ({
      description: opt.description ?? 'struct', fixedSize: sum(fields.map((x) => x[1])), maxSize: sum(fields.map((x) => x[1])),
      serialize: (v) => flat(fields.map(([k, s]) => s.serialize(v[k]))),
      deserialize(b, off = 0) { const v = {}; for (const [k, s] of fields) { const [x, o] = s.deserialize(b, off); v[k] = x; off = o; } return [v, off]; },
    }),
    tuple: (items) => ({
      fixedSize: sum(items), maxSize: sum(items),
      serialize: (v) => { if (v.length !== items.length) throw new Error('tuple: wrong length'); return flat(items.map((s, i) => s.serialize(v[i]))); },
      deserialize(b, off = 0) { const v = []; for (const s of items) { const [x, o] = s.deserialize(b, off); v.push(x); off = o; } return [v, off]; },
    }),
    array: (item, opt = {}) => {
      const n = typeof opt.size === 'number' ? opt.size : null, pre = n === null && opt.size !== 'remainder' ? opt.size ?? u32() : null;
      return {
        fixedSize: n !== null && item.fixedSize !== null ? n * item.fixedSize : null, maxSize: null,
        serialize(v) { if (n !== null && v.length !== n) throw new Error('array: wrong length'); return flat([...(pre ? [pre.serialize(v.length)] : []), ...[...v].map((x) => item.serialize(x))]); },
        deserialize(b, off = 0) {
          let c = n; const v = [];
          if (pre) { const [x, o] = pre.deserialize(b, off); c = Number(x instanceof Sym ? x[Symbol.toPrimitive]() : x); off = o; }
          while (c === null ? off < b.length : v.length < c) { const [x, o] = item.deserialize(b, off); v.push(x); off = o; }
          return [v, off];
        },
      };
    },
    bytes: (opt = {}) => { const n = typeof opt.size === 'number' ? opt.size : null, pre = opt.size && n === null ? opt.size : null; return { fixedSize: n, maxSize: n, serialize: (v) => (n !== null ? bytes(Array.from({ length: n }, (_, i) => v[i] ?? 0)) : flat([...(pre ? [pre.serialize(v.length)] : []), v])), deserialize: (b, o = 0) => (n !== null ? [bytes([...b.slice(o, o + n)]), o + n] : [bytes([...b.slice(o)]), b.length]) }; },
    option: (item, opt = {}) => {
      const pre = opt.prefix ?? u8();
      return {
        fixedSize: item.fixedSize === 0 ? pre.fixedSize : null, maxSize: null,
        serialize(v) {
          const some = v === null || v === undefined ? null : v?.__option === 'None' ? null : v?.__option === 'Some' ? [v.value] : [v];
          if (!some) return opt.fixed ? flat([pre.serialize(0), Array(item.fixedSize).fill(0)]) : pre.serialize(0);
          return flat([pre.serialize(1), item.serialize(some[0])]);
        },
        deserialize(b, off = 0) {
          const [p, o] = pre.deserialize(b, off);
          if (t(same(p, 0))) return [{ __option: 'None' }, opt.fixed ? o + item.fixedSize : o];
          const [x, q] = item.deserialize(b, o);
          return [{ __option: 'Some', value: x }, q];
        },
      };
    },
    nullable: (item, opt = {}) => ({ ...S.option(item, opt), deserialize: (b, o = 0) => { const [x, p] = S.option(item, opt).deserialize(b, o); return [x.__option === 'Some' ? x.value : null, p]; } }),
    scalarEnum: (en, opt = {}) => {
      const pre = opt.size ?? u8(), keys = Object.keys(en), values = Object.values(en), numeric = values.some((v) => typeof v === 'number');
      const max = numeric ? values.length / 2 - 1 : values.length - 1;
      const names = numeric ? keys : [...new Set([...keys, ...values])];
      return {
        fixedSize: pre.fixedSize, maxSize: pre.maxSize,
        serialize(v) {
          if (v instanceof SInt) { if (!t(and(mk('bvsle', [K(0, W), v.t], 'b'), mk('bvsle', [v.t, K(max, W)], 'b')))) throw new Error('no such variant'); return pre.serialize(v); }
          if (typeof v === 'number' && (v < 0 || v > max)) throw new Error('no such variant');
          if (typeof v === 'string' && !names.includes(v)) throw new Error('no such variant');
          if (typeof v === 'number') return pre.serialize(v);
          const i = values.indexOf(v);
          return pre.serialize(i >= 0 ? i : keys.indexOf(v));
        },
        deserialize(b, off = 0) {
          const [x, o] = pre.deserialize(b, off);
          for (let i = 0; i <= max; i++) if (t(same(x, i))) return [numeric ? i : values[i], o];
          throw new RangeError('no such variant');
        },
      };
    },
    mapSerializer: (s, un, map) => ({
      ...s, serialize: (v) => s.serialize(un(v)),
      deserialize: map ? (b, off = 0) => { const [x, o] = s.deserialize(b, off); return [map(x, b, off), o]; } : s.deserialize,
    }),
    fixSerializer: (s, n) => ({ ...s, fixedSize: n, maxSize: n, serialize: (v) => { const l = [...s.serialize(v)]; return bytes(Array.from({ length: n }, (_, i) => l[i] ?? 0)); } }),
    reverseSerializer: (s) => ({ ...s, serialize: (v) => bytes([...s.serialize(v)].reverse()), deserialize: (b, off = 0) => { const l = [...b.slice(off, off + s.fixedSize)].reverse(); return [s.deserialize(bytes(l), 0)[0], off + s.fixedSize]; } }),
    mergeBytes: (l) => flat(l),
  };
  // ---- umi ------------------------------------------------------------------------------------------------------
  const isKey = (k) => k instanceof SKey || unb58(k) !== null;
  function publicKey(x, assertValid = true) {
    if (x?.symKind) return x.key;
    const k = x instanceof SKey || typeof x === 'string' ? x : Array.isArray(x) ? x[0] : x && typeof x === 'object' && 'publicKey' in x ? x.publicKey : isBytes(x) ? S.publicKey().deserialize(x)[0] : x;
    if (assertValid && !isKey(k)) throw new Error('The provided public key is invalid: ' + k);
    return k;
  }
  const isSigner = (x) => !!x && typeof x === 'object' && !x.symKind && !(x instanceof Sym) && 'publicKey' in x && 'signMessage' in x;
  const isPda = (x) => (x?.symKind ? x.symKind().array : Array.isArray(x) && x.length === 2 && typeof x[1] === 'number' && isKey(x[0]));
  class ProgramError extends Error {
    name = 'ProgramError';
    constructor(message, program, cause) { super(message); this.program = program; this.cause = cause; this.logs = cause?.logs; }
  }
  const builder = (items) => ({ items, add: (o) => builder([...items, ...(o.items ?? o)]), getInstructions: () => items.map((x) => x.instruction), prepend: (o) => builder([...(o.items ?? o), ...items]), getSigners: () => items.flatMap((x) => x.signers) });
  const gpa = (context, programId, o = { fields: {}, filters: [], fn: null }) => ({
    programId, o,
    registerFields: (fields) => gpa(context, programId, { ...o, fields }),
    deserializeUsing: (fn) => gpa(context, programId, { ...o, fn }),
    where: (offset, b) => gpa(context, programId, { ...o, filters: [...o.filters, { offset, bytes: b }] }),
    whereField: (k, v) => { const [offset, s] = o.fields[k]; return gpa(context, programId, { ...o, filters: [...o.filters, { offset, bytes: s.serialize(v) }] }); },
    whereSize: (n) => gpa(context, programId, { ...o, filters: [...o.filters, { size: n }] }),
    deserialize: (acc) => o.fn(acc),
  });
  const umi = {
    publicKey, publicKeyBytes: (k) => S.publicKey().serialize(k), isPublicKey: isKey, isPda, isSigner, ProgramError, defaultPublicKey: () => b58(0n),
    transactionBuilder: (items = []) => builder(items), gpaBuilder: (c, p) => gpa(c, publicKey(p)),
    assertAccountExists(a, name) { if (!t(a.exists instanceof SBool ? a.exists : !!a.exists)) { const e = new Error(`The account of type [${name ?? ''}] was not found`); e.name = 'AccountNotFoundError'; throw e; } },
    deserializeAccount(raw, s) { const { data, publicKey: pk, ...rest } = raw; const [v] = s.deserialize(data); return { publicKey: pk, header: rest, ...v }; },
    some: (value) => ({ __option: 'Some', value }), none: () => ({ __option: 'None' }),
    isSome: (o) => o?.__option === 'Some', isNone: (o) => o?.__option === 'None', isOption: (o) => !!o && typeof o === 'object' && '__option' in o,
    wrapNullable: (x) => (x === null || x === undefined ? { __option: 'None' } : { __option: 'Some', value: x }),
    unwrapOption: (o, f = () => null) => (o.__option === 'Some' ? o.value : f()),
    unwrapSome: (o) => { if (o.__option === 'Some') return o.value; throw new Error('Expected Some'); },
  };
  return { S, umi, env: { '@metaplex-foundation/umi': umi, '@metaplex-foundation/umi/serializers': S, '@metaplex-foundation/umi-serializers': S } };
}
