// The harness: what the program in /repo takes and stores, against what the JavaScript client sends and reads.
import { SInt, SKey, SBool, Sym, W, K, T, F, int, eq, zx, ext, and, or, not, same, branch, input, assertion, reached, symbolic, b58, U8, intTerm, truth } from './engine.mjs';

const ID = 'BF5PatmRTQDgEKoXR7iHRbkibEEi83nVM38cUKWzQcTR';
const TOKEN = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA', SYSTEM = '11111111111111111111111111111111', RENT = 'SysvarRent111111111111111111111111111111111';
const PERIODS = ['None', 'Flex', 'ThreeMonths', 'SixMonths', 'OneYear'];

// account flags: s signer, w has to be writable; '?x' may be left out, then x
export const INSTRUCTIONS = {
  initializePool: [0, { rewardPool: 'w', rewardMint: '', vault: 'w', payer: 'sw?payer', depositAuthority: 's', rent: '?rent', tokenProgram: '?token', systemProgram: '?system' }, { fillAuthority: 'key', distributeAuthority: 'key' }],
  fillVault: [1, { rewardPool: 'w', rewardMint: '', vault: 'w', fillAuthority: 's', sourceTokenAccount: 'w', tokenProgram: '?token' }, { rewards: 'u64', distributionEndsAt: 'u64' }],
  initializeMining: [2, { rewardPool: '', mining: 'w', payer: 'sw?payer', systemProgram: '?system' }, { miningOwner: 'key' }],
  depositMining: [3, { rewardPool: 'w', mining: 'w', depositAuthority: 's', delegateMining: 'w' }, { amount: 'u64', lockupPeriod: 'period', miningOwner: 'key', delegate: 'key' }],
  withdrawMining: [4, { rewardPool: 'w', mining: 'w', depositAuthority: 's', delegateMining: 'w' }, { amount: 'u64', miningOwner: 'key', delegate: 'key' }],
  claim: [5, { rewardPool: '', rewardMint: '', vault: 'w', mining: 'w', miningOwner: 's', depositAuthority: 's', miningOwnerRewardTokenAccount: 'w', tokenProgram: '?token' }, {}],
  extendStake: [6, { rewardPool: 'w', mining: 'w', depositAuthority: 's', delegateMining: 'w' }, { oldLockupPeriod: 'period', newLockupPeriod: 'period', depositStartTs: 'u64', baseAmount: 'u64', additionalAmount: 'u64', miningOwner: 'key', delegate: 'key' }],
  distributeRewards: [7, { rewardPool: 'w', distributeAuthority: 's' }, {}],
  closeMining: [8, { mining: 'w', miningOwner: 's', targetAccount: 'w', depositAuthority: 's', rewardPool: '' }, {}],
  changeDelegate: [9, { rewardPool: 'w', mining: 'w', depositAuthority: 's', miningOwner: 's', oldDelegateMining: 'w', newDelegateMining: 'w' }, { stakedAmount: 'u64', newDelegate: 'key' }],
  slash: [10, { depositAuthority: 's', rewardPool: 'w', mining: 'w' }, { miningOwner: 'key', slashAmountInNative: 'u64', slashAmountMultipliedByPeriod: 'u64', stakeExpirationDate: 'date?' }],
  decreaseRewards: [11, { depositAuthority: 's', rewardPool: '', mining: 'w' }, { miningOwner: 'key', decreasedWeightedStakeNumber: 'u64' }],
};
export const ACCOUNTS = {
  Mining: [144, { rewardPool: 32, owner: 32, rewardMint: 32, indexWithPrecision: 16, share: 8, unclaimedRewards: 8, stakeFromOthers: 8, bump: 1, data: 7 }],
  RewardPool: [176, { depositAuthority: 32, distributeAuthority: 32, fillAuthority: 32, rewardMint: 32, indexWithPrecision: 16, totalShare: 8, distributionEndsAt: 8, tokensAvailableForDistribution: 8, tokenAccountBump: 1, data: 7 }],
};
const PAST = 'Rewards: distribution_ends_at date is lower than current date';
export const ERRORS = [
  ['InvalidAccountOwner', 'Input account owner'], ['MathOverflow', 'Math operation overflow'], ['RewardsNoDeposits', 'Rewards: No deposits'],
  ['InvalidLockupPeriod', 'Rewards: lockup period invalid'], ['DistributionInThePast', PAST], ['InvalidPrimitiveTypesConversion', PAST],
  ['RewardsMustBeClaimed', 'Rewards: unclaimed rewards must be claimed'], ['RewardsMustBeGreaterThanZero', 'Rewards: rewards amount must be positive'],
  ['StakeFromOthersMustBeZero', 'Rewards: Stake from others must be zero'],
  ['NoWeightedStakeModifiersAtADate', "No changes at the date in weighted stake modifiers while they're expected"],
  ['DelegatesAreTheSame', 'Passed delegates are the same'],
  ['RetreivingZeroCopyAccountFailire', 'Getting pointer to the data of the zero-copy account has failed'],
  ['AlreadyInitialized', 'Account is already initialized'], ['InvalidMining', 'Invalid mining'], ['DerivationError', 'Failed to derive PDA'],
  ['DecreaseRewardsTooBig', null],
];

// ---- inputs -------------------------------------------------------------------------------------------------
const key = (n) => { const x = input(n, 256); return typeof x === 'bigint' ? b58(x) : new SKey(x); };
const flag = (n) => { const x = input(n, 'b'); return typeof x === 'boolean' ? x : branch(x); };
function u64(n) { // a bigint of 64 bits, or a safe integer
  if (flag(n + '_as_number')) { const x = input(n + '_n', 53); return typeof x === 'bigint' ? Number(x) : new SInt(zx(x, W), 'number'); }
  const x = input(n, 64);
  return typeof x === 'bigint' ? x : new SInt(zx(x, W), 'bigint');
}
const byte = (n) => { const x = input(n, 8); return typeof x === 'bigint' ? Number(x) : new SInt(zx(x, W), 'number'); };
function choose(n, count) { for (let i = 0; i < count - 1; i++) if (flag(`${n}_is_${i}`)) return i; return count - 1; }
/** a PublicKey or Pda: which of the two is decided when the client looks */
class SAcct {
  constructor(n) { this.n = n; this.key = new SKey(input(n, 256)); }
  symKind() { return (this.k ??= flag(this.n + '_is_pda') ? { array: true, typeof: 'object' } : { array: false, typeof: 'string' }); }
  get 0() { return this.symKind().array ? this.key : undefined; }
  get 1() { return this.symKind().array ? 255 : undefined; }
  get length() { return this.symKind().array ? 2 : 44; }
  [Symbol.toPrimitive]() { return this.key[Symbol.toPrimitive](); }
}
function address(n) { if (symbolic()) return new SAcct(n); const k = key(n); return flag(n + '_is_pda') ? [k, 255] : k; }
const signer = (n) => ({ publicKey: key(n), signMessage: async (m) => m, signTransaction: async (t) => t, signAllTransactions: async (t) => t });
const keyOf = (x) => (x?.symKind ? x.key : Array.isArray(x) ? x[0] : x?.publicKey ?? x);
const check = (label, c) => assertion(label, typeof c === 'boolean' ? (c ? T : F) : c);

// ---- expected bytes ---------------------------------------------------------------------------------------------
const le = (x, n) => Array.from({ length: n }, (_, i) => int(zx(ext(intTerm(x), 8 * i + 7, 8 * i), W), 'number'));
const keyBytes = (m, k) => [...m.S.publicKey().serialize(k)];
const sameBytes = (a, b) => (a.length !== b.length ? F : and(...b.map((x, i) => same(a[i], x))));

function context(m) {
  const regs = {}, log = [];
  const registered = (n) => (regs[n] ??= [flag('registered_' + n) ? key('program_' + n) : null])[0];
  const ctx = {
    payer: signer('context_payer'),
    programs: {
      has: (n) => !!registered(n),
      get: (n, filter) => { log.push([n, filter]); return { name: n, publicKey: registered(n) ?? b58(0n) }; },
      getPublicKey: (n, fallback, filter) => { log.push([n, filter]); const r = registered(n); if (r) return r; if (!fallback) throw new Error('ProgramNotRecognizedError ' + n); return m.umi.publicKey(fallback); },
      add: (p, override) => { log.push(['add', p, override]); },
    },
    registered, log,
  };
  return ctx;
}

// ---- instructions ---------------------------------------------------------------------------------------------
export function instruction(m, name) {
  const [tag, accs, args] = INSTRUCTIONS[name];
  const ctx = context(m), inp = {}, want = [], data = [tag], signers = [];
  for (const [n, f] of Object.entries(accs)) {
    const [fl, def] = f.split('?');
    let v;
    if (def === undefined || !flag('omit_' + n)) v = inp[n] = !fl.includes('s') ? address('acc_' + n) : signers.length && flag('same_' + n) ? signers[0] : signer('acc_' + n);
    else {
      if (flag('null_' + n)) inp[n] = undefined;
      v = def === 'payer' ? ctx.payer : def === 'rent' ? RENT : def === 'token' ? ctx.registered('splToken') ?? TOKEN : ctx.registered('splSystem') ?? SYSTEM;
    }
    want.push([keyOf(v), fl]);
    if (fl.includes('s')) signers.push(v);
  }
  for (const [n, ty] of Object.entries(args)) {
    if (ty === 'key') { inp[n] = key('arg_' + n); data.push(...keyBytes(m, inp[n])); }
    if (ty === 'u64') { inp[n] = u64('arg_' + n); data.push(...le(inp[n], 8)); }
    if (ty === 'period') { const i = choose('arg_' + n, 5); inp[n] = m.client.LockupPeriod[PERIODS[i]]; data.push(i); }
    if (ty === 'date?') {
      const how = choose('arg_' + n, 4);
      if (how < 2) { inp[n] = how ? null : m.umi.none(); data.push(0); } else { const x = u64('arg_' + n); inp[n] = how === 2 ? m.umi.some(x) : x; data.push(1, ...le(x, 8)); }
    }
  }
  const before = { ...inp };
  reached('built');
  const items = m.client[name](ctx, inp).items;
  check('js.one', items.length === 1);
  const { instruction: ix, signers: got } = items[0];
  check('js.program', same(ix.programId, ctx.registered('mplxRewards') ?? ID));
  check('js.data', sameBytes([...ix.data], data));
  check('js.accounts', ix.keys.length === want.length);
  want.forEach(([k, f], i) => {
    const a = ix.keys[i];
    if (!a) return;
    check('js.accounts', same(a.pubkey, k));
    check('js.signer', same(a.isSigner, f.includes('s')));
    if (f.includes('w')) check('js.writable', same(a.isWritable, true));
    if (/mint|program|rent/i.test(Object.keys(accs)[i])) check('js.writable', same(a.isWritable, false));
  });
  check('js.signers', signers.every((s) => got.includes(s)) && got.every((s) => signers.includes(s)));
  check('js.input_kept', Object.keys(before).every((k) => inp[k] === before[k]));
}

// ---- accounts ---------------------------------------------------------------------------------------------------
function rawAccount(m, n, size, exists) {
  const data = Array.from({ length: size }, (_, i) => byte(`${n}_byte${i}`));
  return { publicKey: key(n + '_address'), executable: false, owner: key(n + '_owner'), lamports: { basisPoints: 1n, identifier: 'SOL', decimals: 9 }, exists, data: symbolic() ? U8.from(data) : Uint8Array.from(data) };
}
function decoded(label, got, raw, fields) {
  let off = 0;
  for (const [n, size] of Object.entries(fields)) {
    const b = [...raw.data.slice(off, off + size)];
    const v = got?.[n];
    if (n === 'data') check(label, Array.isArray(v) || v instanceof Uint8Array ? sameBytes([...v], b) : false);
    else if (size === 32) check(label, v instanceof SKey || typeof v === 'string' ? same(v, keyOfBytes(b)) : false);
    else check(label, v instanceof SInt || typeof v === 'bigint' || typeof v === 'number' ? and(...le(v, size).map((x, i) => same(x, b[i])), (v instanceof SInt ? v.kind : typeof v) === (size > 4 ? 'bigint' : 'number') ? T : F) : false);
    off += size;
  }
  check(label, off === raw.data.length);
}
function keyOfBytes(b) {
  if (b.every((x) => typeof x === 'number')) return b58(b.reduce((a, x) => a * 256n + BigInt(x), 0n));
  return new SKey(b.map((x) => (x instanceof SInt ? ext(x.t, 7, 0) : K(BigInt(x), 8))).reduce((a, x) => ({ s: a.s + x.s, op: 'cat', a: [a, x] })));
}
export function account(m, name) {
  const [size, fields] = ACCOUNTS[name];
  const ser = m.client[`get${name}AccountDataSerializer`]();
  const raw = rawAccount(m, 'raw', size, true);
  reached('decoded');
  const got = m.client['deserialize' + name](raw);
  decoded('js.decode', got, raw, fields);
  check('js.decode', same(got.publicKey, raw.publicKey));
  check('js.size', m.client[`get${name}Size`]() === size);
  const [v, off] = ser.deserialize(raw.data);
  check('js.size', off === size);
  check('js.encode', sameBytes([...ser.serialize(v)], [...raw.data]));
}
export async function fetching(m, name, what) {
  const [size, fields] = ACCOUNTS[name];
  const asked = [], opts = { commitment: 'finalized' };
  const given = symbolic() ? [new SAcct('a'), new SAcct('b')] : [address('a'), address('b')];
  const withOpts = flag('with_options');
  const exists = (n) => { const x = input(n, 'b'); return typeof x === 'boolean' ? x : new SBool(x); };
  const accs = [rawAccount(m, 'first', size, exists('first_exists')), rawAccount(m, 'second', size, exists('second_exists'))];
  const ctx = { rpc: {
    getAccount: async (k, o) => { asked.push([k, o]); return accs[0]; },
    getAccounts: async (ks, o) => { ks.forEach((k) => asked.push([k, o])); return ks.map((_, i) => accs[i]); },
  } };
  const all = what.endsWith('All'), n = all ? 2 : 1;
  const live = [];
  for (let i = 0; i < n; i++) if (flag2(accs[i].exists)) live.push(accs[i]);
  let got, failed = false;
  reached(what);
  try { got = await m.client[what + name](ctx, all ? given : given[0], ...(withOpts ? [opts] : [])); } catch (e) { if (e.name !== 'AccountNotFoundError') throw e; failed = true; }
  check('js.fetch', asked.length === n && asked.every(([, o]) => o === (withOpts ? opts : undefined)));
  asked.forEach(([k], i) => check('js.fetch', same(keyOf(k), keyOf(given[i]))));
  const safe = what.startsWith('safe');
  if (failed) { check('js.fetch', !safe && live.length < n); return; }
  if (!safe) check('js.fetch', live.length === n);
  if (!all && safe && live.length === 0) { check('js.fetch', got === null); return; }
  const list = all ? got : [got];
  check('js.fetch', list.length === live.length);
  list.slice(0, live.length).forEach((x, i) => decoded('js.fetch', x, live[i], fields));
}
const flag2 = (x) => (x instanceof SBool ? branch(x.t) : x);
export function filters(m, name) {
  const [size, fields] = ACCOUNTS[name];
  const ctx = context(m);
  const b = m.client[`get${name}GpaBuilder`](ctx);
  check('js.filter', same(b.programId, ctx.registered('mplxRewards') ?? ID));
  let off = 0;
  for (const [n, sz] of Object.entries(fields)) {
    let v, bytes;
    if (n === 'data') { v = Array.from({ length: sz }, (_, i) => byte('f_data' + i)); bytes = v; } else if (sz === 32) { v = key('f_' + n); bytes = keyBytes(m, v); } else if (sz === 1) { v = byte('f_' + n); bytes = [v]; } else {
      const x = input('f_' + n, 8 * sz);
      v = typeof x === 'bigint' ? x : new SInt(zx(x, W), 'bigint');
      bytes = le(v, sz);
    }
    const f = b.whereField(n, v).o.filters;
    check('js.filter', f.length === 1 && f[0].offset === off);
    check('js.filter', sameBytes([...f[0].bytes], bytes));
    off += sz;
  }
  const raw = rawAccount(m, 'raw', size, true);
  reached('filtered');
  decoded('js.filter', b.deserialize(raw), raw, fields);
}

// ---- enumerations, errors, the program itself -----------------------------------------------------------------------
export function enums(m) {
  for (const [en, names] of [['LockupPeriod', PERIODS], ['AccountType', ['Uninitialized', 'RewardPool', 'Mining']]]) {
    const E = m.client[en], s = m.client[`get${en}Serializer`]();
    names.forEach((n, i) => {
      check('js.enum', sameBytes([...s.serialize(E[n])], [i]));
    });
    const b = byte('byte_' + en);
    let v, failed = false;
    try { [v] = s.deserialize(symbolic() ? U8.from([b]) : Uint8Array.from([b])); } catch (e) { failed = true; }
    if (failed) check('js.enum', and(...names.map((_, i) => not(same(b, i)))));
    else check('js.enum', or(...names.map((n, i) => (v === E[n] ? same(b, i) : F))));
    reached(failed ? 'unknown' : 'known');
  }
}
export function errors(m) {
  const program = m.client.createMplxRewardsProgram();
  const x = input('code', 32);
  const code = typeof x === 'bigint' ? Number(x) : new SInt(zx(x, W), 'number');
  const cause = new Error('cause');
  const e = flag('through_program') ? program.getErrorFromCode(code, cause) : m.client.getMplxRewardsErrorFromCode(code, program, cause);
  if (e === null || e === undefined) { reached('unknown'); ERRORS.forEach((_, i) => check('js.error', not(same(code, i)))); return; }
  reached('known');
  check('js.error', same(code, e.code));
  const [n, msg] = ERRORS[e.code] ?? [];
  check('js.error', e instanceof m.umi.ProgramError && e.name === n && (msg === null || e.message === msg) && e.program === program && e.cause === cause);
}
export function names(m) {
  const program = m.client.createMplxRewardsProgram();
  const i = choose('name', ERRORS.length + 1);
  const n = ERRORS[i]?.[0] ?? 'Unauthorized', cause = new Error('cause');
  const e = flag('through_program') ? program.getErrorFromName(n, cause) : m.client.getMplxRewardsErrorFromName(n, program, cause);
  reached('named');
  if (i === ERRORS.length) { check('js.error', e === null); return; }
  check('js.error', !!e && e.code === i && e.name === n && e.program === program && e.cause === cause && e instanceof m.umi.ProgramError);
}
export function program(m) {
  const ctx = context(m);
  const p = m.client.createMplxRewardsProgram();
  check('js.program', same(p.publicKey, ID));
  check('js.program', p.name === 'mplxRewards' && p.isOnCluster('mainnet-beta') === true);
  check('js.program', same(m.client.MPLX_REWARDS_PROGRAM_ID, ID));
  const filter = flag('with_filter') ? 'devnet' : undefined;
  const expected = ctx.registered('mplxRewards') ?? ID;
  check('js.program', same(m.client.getMplxRewardsProgramId(ctx, filter), expected));
  check('js.program', m.client.getMplxRewardsProgram(ctx, filter).name === 'mplxRewards');
  check('js.program', ctx.log.length === 2 && ctx.log.every((l) => l[0] === 'mplxRewards' && l[1] === filter));
  ctx.log.length = 0;
  m.client.Rewards().install(ctx);
  check('js.program', ctx.log.length === 1 && ctx.log[0][0] === 'add' && ctx.log[0][1].name === 'mplxRewards' && ctx.log[0][2] === false);
  reached('program');
}

export function jobs() {
  const l = [];
  for (const n of Object.keys(INSTRUCTIONS)) l.push({ name: n, run: (m) => instruction(m, n), reach: ['built'], expect: ['js.program', 'js.data', 'js.accounts', 'js.signer', 'js.signers'] });
  for (const n of Object.keys(ACCOUNTS)) {
    l.push({ name: 'decode' + n, run: (m) => account(m, n), reach: ['decoded'], expect: ['js.decode', 'js.encode', 'js.size'] });
    for (const w of ['fetch', 'safeFetch', 'fetchAll', 'safeFetchAll']) l.push({ name: w + n, run: (m) => fetching(m, n, w), reach: [w], expect: ['js.fetch'] });
    l.push({ name: 'filter' + n, run: (m) => filters(m, n), reach: ['filtered'], expect: ['js.filter'] });
  }
  l.push({ name: 'enums', run: enums, reach: ['known', 'unknown'], expect: ['js.enum'] }, { name: 'errors', run: errors, reach: ['known', 'unknown'], expect: ['js.error'] },
    { name: 'errorNames', run: names, reach: ['named'], expect: ['js.error'] }, { name: 'program', run: program, reach: ['program'], expect: ['js.program'] });
  return l;
}
