"""What each check runs: harness entry points with their bounds (parameters) and the assertions that decide."""

ASSUMPTIONS = [
    'the executor runs the LLVM IR that rustc 1.78 emits for x86-64 from /repo (release profile, overflow checks on as in the repository\'s own release profile); the on-chain SBF back end is outside',
    'runtime stand-ins: Clock, Rent, find_program_address, invoke/invoke_signed of the system and token program, return data are contract stubs in harness/src/stubs.rs',
    'derived addresses are free of collisions (different seeds give different addresses, no derived address is one of the named accounts or ids)',
    'time is below 2^38 seconds; a program error makes the runtime discard all writes, so only successful instructions are judged on their effects',
    'z3 answers are trusted for unsat; every satisfiable counterexample is replayed natively before it is reported',
]

NAMES = {
    'h_deposit': 'deposit', 'h_withdraw': 'withdraw', 'h_extend': 'extend', 'h_change': 'change delegate', 'h_slash': 'slash',
    'h_decrease': 'decrease rewards', 'h_distribute': 'distribute', 'h_schedule': 'daily distributions', 'h_fill': 'fill vault',
    'h_claim': 'claim', 'h_close': 'close mining', 'h_init_pool': 'initialize pool', 'h_init_pool_bad': 'initialize pool, unsuitable accounts',
    'h_init_mining': 'initialize mining', 'h_newcomer': 'first deposit of a newcomer', 'h_auth': 'authorisation', 'h_missing': 'missing account', 'h_strict': 'damaged instruction data', 'h_kind': 'account of another kind',
    'h_iso': 'two pools', 'h_iso_change': 'two pools, change delegate',
    'h_capacity': 'full schedules', 'h_capacity_history': 'full history', 'h_deep': 'long schedules', 'h_solvent': 'several participants',
    'h_lockup': 'lockup terms', 'h_builders': 'instruction builders', 'h_address': 'derived addresses', 'h_decode': 'instruction decoding',
    'h_client': 'client instruction', 'h_client_codes': 'client codes', 'h_entry': 'entry point', 'h_idl': 'interface description', 'h_idl_state': 'interface description, accounts', 'h_idl_codes': 'interface description, codes', 'h_layout_pool': 'pool layout', 'h_layout_mining': 'mining layout',
}


def J(entry, *params, only=None, reach=(), expect=(), **kw):
    d = {'entry': entry, 'params': list(params) or [0], 'only': only, 'reach': list(reach), 'expect': list(expect),
         'text': '%s(%s)' % (NAMES.get(entry, entry), ','.join(map(str, params)))}
    d.update(kw)
    return d


class Prop:
    def __init__(self, quick, thorough, bounds, outside, assumptions=(), js=False):
        self.js = js
        self.q, self.t, self.bounds, self.outside, self.assumptions = quick, thorough, bounds, outside, list(assumptions)

    def jobs(self, tier):
        js, seen = [], set()
        for j in list(self.q) + (list(self.t) if tier == 'thorough' else []):
            k = (j['entry'], tuple(j['params']), tuple(j['only'] or ()))
            if k not in seen:
                seen.add(k)
                js.append(j)
        # longest first, so that the cores stay busy
        js.sort(key=lambda j: -COST.get((j['entry'], tuple(j['params'])), 20))
        return js


COST = {}
STD = ['own', 'sfo', 'settled', 'midnight', 'ident', 'accrual', 'pool', 'conserve', 'roles', 'dist', 'cpi']
DEL = ['delegate_own', 'delegate_sfo', 'delegate_settled', 'delegate_ident', 'delegate_accrual']


def ex(op, *extra, dels=False):
    return [op + '.' + x for x in STD + (DEL if dels else []) + list(extra)]


def pins(entry, base, i, vals, **kw):
    """one job per pinned choice"""
    js = []
    for v in vals:
        p = list(base)
        while len(p) <= i:
            p.append(0)
        p[i] = v
        js.append(J(entry, *p, **kw))
    return js


# ---- the stake operations, effects (every successful execution) ----------------------------------------
# parameters: distributions in the history, dates in the pool schedule, in the participant's, in the delegate's,
# delegate (1 a separate one, +2 one key is participant and all authorities, +4 the delegate is the deposit authority), arbitrary slot order?, live?
def deposit(only=None):
    e = [] if only else ex('deposit')
    return [J('h_deposit', 1, 1, 1, 0, 1, 0, 0, only=only, reach=['ok', 'bad', 'err'], expect=[] if only else ex('deposit', 'period', dels=True)),
            J('h_deposit', 1, 1, 0, 1, 1, 0, 0, only=only, reach=['ok'], expect=e),
            J('h_deposit', 0, 2, 2, 0, 0, 1, 0, only=only, reach=['ok'], expect=e),
            J('h_deposit', 2, 1, 1, 0, 0, 0, 0, only=only, reach=['ok'], expect=e),
            J('h_deposit', 1, 1, 1, 0, 2, 0, 0, only=only, reach=['ok'], expect=e),
            J('h_deposit', 0, 0, 0, 0, 5, 0, 0, only=only, reach=['ok'], expect=e)]


def withdraw(only=None):
    e = [] if only else ex('withdraw', 'limit')
    return [J('h_withdraw', 1, 1, 1, 0, 1, only=only, reach=['ok', 'err'], expect=[] if only else ex('withdraw', 'limit', 'delegate_limit', dels=True)),
            J('h_withdraw', 1, 1, 0, 1, 1, only=only, reach=['ok'], expect=e),
            J('h_withdraw', 0, 2, 2, 0, 0, 1, only=only, reach=['ok'], expect=e),
            J('h_withdraw', 2, 1, 2, 0, 0, 0, only=only, reach=['ok'], expect=e),
            J('h_withdraw', 1, 1, 1, 0, 2, only=only, reach=['ok'], expect=e),
            J('h_withdraw', 0, 1, 0, 1, 5, only=only, reach=['ok'], expect=e)]


def extend(only=None):
    e = [] if only else ex('extend')
    return [J('h_extend', 1, 1, 1, 0, 0, 0, 0, only=only, reach=['ok', 'bad', 'err', 'ok-running', 'ok-expired'], expect=e + ([] if only else ['extend.period'])),
            J('h_extend', 0, 1, 1, 0, 1, 0, 0, only=only, reach=['ok', 'ok-running', 'ok-expired'], expect=[] if only else ex('extend', dels=True)),
            J('h_extend', 1, 1, 0, 1, 1, 0, 0, 3, 4, only=only, reach=['ok'], expect=e),
            J('h_extend', 1, 1, 1, 0, 1, 0, 0, 5, 2, only=only, reach=['ok'], expect=e),
            J('h_extend', 0, 2, 2, 0, 0, 0, 0, 4, 3, only=only, reach=['ok'], expect=e),
            J('h_extend', 0, 1, 1, 0, 3, 0, 0, 3, 4, only=only, reach=['ok'], expect=e),
            J('h_extend', 0, 1, 1, 0, 5, 0, 0, 2, 5, only=only, reach=['ok'], expect=e)]


def change(only=None):
    e = [] if only else ex('change', dels=True)
    return [J('h_change', 1, 1, 1, 0, 1, only=only, reach=['ok', 'same', 'err'], expect=e),
            J('h_change', 1, 1, 0, 1, 1, only=only, reach=['ok'], expect=e),
            J('h_change', 0, 1, 1, 1, 1, only=only, reach=['ok'], expect=e),
            J('h_change', 1, 1, 1, 0, 3, only=only, reach=['ok'], expect=e),
            J('h_change', 0, 1, 1, 0, 5, only=only, reach=['ok'], expect=e)]


def slash(only=None):
    e = [] if only else ex('slash', 'limit')
    return [J('h_slash', 1, 2, 1, only=only, reach=['ok', 'err', 'ok-scheduled'], expect=e),
            J('h_slash', 1, 2, 2, 0, 0, 1, only=only, reach=['ok', 'ok-scheduled'], expect=e),
            J('h_slash', 2, 1, 2, only=only, reach=['ok'], expect=e),
            J('h_slash', 1, 1, 1, 0, 2, only=only, reach=['ok'], expect=e)]


DEC = ['decrease.' + x for x in 'own schedule never_more limit sfo midnight ident accrual pool roles dist cpi'.split()]


def decrease(only=None):
    e = [] if only else DEC
    return [J('h_decrease', 1, 1, 2, only=only, reach=['ok', 'err'], expect=e),
            J('h_decrease', 2, 1, 2, 0, 0, 1, only=only, reach=['ok'], expect=e),
            J('h_decrease', 0, 1, 3, 0, 0, 1, only=only, reach=['ok'], expect=e),
            J('h_decrease', 1, 1, 2, 0, 2, only=only, reach=['ok'], expect=e)]


DIST = ['distribute.' + x for x in 'stake roles ends cpi midnight settled total once amount limit index history_len history past'.split()]


def distribute(only=None):
    e = [] if only else DIST
    return [J('h_distribute', 0, 1, 0, 0, only=only, reach=['ok', 'err', 'empty', 'all', 'part']),
            J('h_distribute', 1, 1, 0, 0, only=only, reach=['ok', 'err', 'empty', 'first', 'again', 'all', 'part'], expect=e),
            J('h_distribute', 2, 2, 1, 0, only=only, reach=['ok', 'first', 'again'], expect=e),
            J('h_distribute', 1, 3, 0, 0, only=only, reach=['ok', 'first', 'again'], expect=e)]


def schedule(n):
    return [J('h_schedule', i, reach=['ok'], expect=['schedule.monotone', 'schedule.drained']) for i in range(1, n + 1)]


FILL = ['fill.' + x for x in 'itself zero past not_earlier ends avail vault source roles rest transfers transfer'.split()]


def fill():
    return [J('h_fill', 0, 0, reach=['ok', 'err'], expect=FILL), J('h_fill', 2, 0, reach=['ok', 'err'], expect=FILL)]


CLAIM = ['claim.' + x for x in 'dest amount vault transfers return cleared index ident own sfo settled roles dist pool twice'.split()]


def claim(only=None):
    e = [] if only else CLAIM
    return [J('h_claim', 1, 1, 1, only=only, reach=['ok', 'err', 'nothing', 'paid'], expect=e),
            J('h_claim', 2, 0, 1, only=only, reach=['ok', 'paid'], expect=e),
            J('h_claim', 2, 1, 2, only=only, reach=['ok', 'paid'], expect=e),
            J('h_claim', 0, 1, 2, 0, 0, 1, only=only, reach=['ok'], expect=e),
            J('h_claim', 1, 1, 1, 0, 2, only=only, reach=['ok', 'paid'], expect=e)]


CLOSE = ['close.' + x for x in 'delegated unclaimed lamports drained erased pool stake cpi'.split()]


def close(only=None):
    e = [] if only else CLOSE
    return [J('h_close', 1, 1, 1, only=only, reach=['ok', 'err'], expect=e), J('h_close', 2, 1, 1, only=only, reach=['ok', 'err'], expect=e),
            J('h_close', 0, 0, 0, only=only, reach=['ok', 'err'], expect=e),
            J('h_close', 1, 0, 1, 0, 2, only=only, reach=['ok', 'err'], expect=e)]


def newcomer(n):
    return [J('h_newcomer', i, 1, reach=['ok'], expect=['newcomer.unclaimed', 'newcomer.index']) for i in range(0, n + 1)]


# ---- availability: valid operations succeed --------------------------------------------------------------
def live(ops, deep=False):
    js = []

    def add(op, entry, lists, i=None, vals=()):
        if op in ops:
            for b in lists:
                kw = dict(only=[op + '.live', 'no-panic*'], reach=['ok'], expect=[op + '.live'])
                js.extend(pins(entry, b, i, vals, **kw) if i is not None else [J(entry, *b, **kw)])
    add('deposit', 'h_deposit', [(1, 1, 1, 1, 1, 0, 1)], 7, (2, 3, 4, 5))
    add('withdraw', 'h_withdraw', [(2, 2, 2, 0, 0, 0, 1), (1, 1, 1, 1, 1, 0, 1)])
    add('extend', 'h_extend', [(1, 1, 1, 0, 0, 0, 1)])
    add('change', 'h_change', [(1, 1, 1, 0, 1, 0, 1), (1, 1, 0, 1, 1, 0, 1)])
    add('slash', 'h_slash', [(2, 2, 2, 0, 0, 0, 1)])
    add('decrease', 'h_decrease', [(1, 1, 2, 0, 0, 0, 1)])
    add('claim', 'h_claim', [(2, 0, 1, 0, 0, 0, 1), (1, 1, 1, 0, 0, 0, 1)])
    add('close', 'h_close', [(1, 1, 1, 0, 0, 0, 1), (0, 0, 0, 0, 0, 0, 1)])
    add('distribute', 'h_distribute', [(1, 1, 0, 1), (2, 2, 1, 1)])
    add('fill', 'h_fill', [(1, 1)])
    if deep:
        add('deposit', 'h_deposit', [(2, 2, 2, 0, 0, 0, 1), (1, 2, 2, 1, 1, 0, 1)], 7, (2, 3, 4, 5))
        add('withdraw', 'h_withdraw', [(1, 2, 2, 1, 1, 0, 1)])
        add('extend', 'h_extend', [(1, 2, 2, 1, 1, 0, 1, o, n) for o in (2, 3, 4, 5) for n in (2, 3, 4, 5)])
        add('change', 'h_change', [(1, 1, 1, 1, 1, 0, 1), (1, 2, 2, 1, 1, 0, 1)])
        add('decrease', 'h_decrease', [(2, 1, 3, 0, 0, 0, 1)])
        add('slash', 'h_slash', [(2, 3, 3, 0, 0, 0, 1)])
    return js


def auth(*tags):
    js = []
    for t in tags:
        e = ['auth.' + l for l in {
            1: ['fill_authority', 'pool', 'vault', 'source', 'filled', 'funded'], 7: ['distribute_authority', 'pool'],
            5: ['deposit_authority', 'owner', 'mining', 'vault', 'destination', 'paid'],
            8: ['deposit_authority', 'owner', 'mining', 'target'], 9: ['deposit_authority', 'owner', 'mining', 'delegate', 'old_delegate'],
            10: ['deposit_authority', 'mining'], 11: ['deposit_authority', 'mining']}.get(t, ['deposit_authority', 'mining', 'delegate'])]
        if t == 9:
            # an account at no derived address is never accepted
            js += pins('h_auth', (t,), 1, (1, 2), reach=['ok', 'err'], expect=e) + pins('h_auth', (t,), 1, (3,), reach=['err'])
        else:
            js.append(J('h_auth', t, reach=['ok', 'err'], expect=e))
    return js


def deep(*ps):
    return [J('h_deep', *p, reach=['ok'], expect=['deep.live']) for p in ps]


PROPS = {}


def prop(id, quick, thorough=(), bounds='', outside='', assumptions=()):
    PROPS[id] = Prop(quick, thorough, bounds, outside, assumptions)


B_STATE = ('one instruction from an arbitrary state: all amounts, balances, indices, dates and times symbolic at full width; '
           'schedules of at most 2-3 dates per account and at most 2 past distributions; the long-schedule jobs have up to 50 (participant) and 365 (pool) '
           'concrete dates and up to 1000 distributions with every amount symbolic')
O_STATE = 'arbitrary dates in schedules and histories longer than the stated number of entries'

prop('C01', live({'deposit'}) + deposit() + deep((0, 20, 15, 3, 8), (8, 20, 15, 2, 9)), [J('h_deposit', 1, 2, 2, 0, 1, 0, 0), J('h_deposit', 2, 2, 2, 1, 1, 0, 0), J('h_deposit', 0, 3, 3, 0, 0, 1, 0)], B_STATE, O_STATE)
prop('C02', live({'withdraw'}) + withdraw() + deep((1, 20, 15, 2, 9), (9, 20, 15, 2, 9)), [J('h_withdraw', 2, 2, 2, 1, 1), J('h_withdraw', 0, 3, 3, 0, 0, 1)], B_STATE, O_STATE)
prop('C03', live({'extend'}) + extend() + deep((6, 20, 15, 2, 9)), [J('h_extend', 1, 2, 2, 0, 0, 1, 0), J('h_extend', 1, 1, 1, 1, 1, 0, 0)], B_STATE, O_STATE)
prop('C04', live({'change'}) + change() + deep((7, 20, 15, 2, 9)), [J('h_change', 1, 1, 1, 1, 1), J('h_change', 2, 1, 2, 1, 1)], B_STATE, O_STATE)
prop('C05', live({'slash'}) + slash() + deep((2, 30, 15, 3, 9), (2, 45, 5, 2, 9)), [J('h_slash', 2, 3, 3, 0, 0, 1)], B_STATE, O_STATE)
prop('C06', live({'decrease'}) + decrease() + deep((5, 8, 6, 3, 4), (5, 45, 5, 2, 9), (5, 20, 20, 2, 9)), [J('h_decrease', 2, 1, 4, 0, 0, 1)], B_STATE, O_STATE)

def books(*ops):
    """histories of that many instructions, one for every choice"""
    js, c = [], [()]
    for o in ops:
        c = [x + (v,) for x in c for v in o]
    n = len(ops) + (len(ops) == 1)
    e = ['books.equal', 'books.enough', 'books.delegated']
    return [J('h_books', n, *x, only=['books.*', 'no-panic*']) for x in c]


CONS = ['*.conserve', '*.pool', '*.never_more', '*.stake']
prop('C07', deposit(CONS)[1:] + withdraw(CONS) + extend(CONS)[1:] + change(CONS) + slash(CONS) + decrease(CONS) + claim(CONS)[:2] + distribute(CONS)[1:3] + close(CONS)[:1] + books(range(1, 12)) +
     books((1, 2), range(1, 12)),
     deposit(CONS) + extend(CONS) + books((11,), range(1, 12)) + books((1, 2), (1, 2, 3, 4, 5, 6, 7, 8, 9), range(1, 12)), B_STATE, O_STATE)

ACC = ['*.accrual', '*delegate_accrual', 'claim.amount', 'claim.index', 'distribute.index', 'distribute.history', 'distribute.past', 'distribute.total', 'distribute.settled', '*.settled', '*delegate_settled']
prop('C09', deposit(ACC)[1:] + withdraw(ACC) + slash(ACC) + decrease(ACC) + change(ACC) + claim(ACC) + distribute(ACC)[1:] +
     [J('h_extend', 0, 1, 1, 0, 1, 0, 0, only=ACC, reach=['ok']), J('h_extend', 1, 1, 0, 1, 1, 0, 0, 3, 4, only=ACC, reach=['ok'])] + newcomer(2) +
     deep((3, 30, 15, 4, 5), (3, 50, 0, 5, 9), (3, 3, 1, 1000, 1), (1, 45, 5, 2, 9)),
     [J('h_claim', 3, 1, 2, only=ACC), J('h_claim', 4, 0, 1, only=ACC)], B_STATE, O_STATE)
prop('C10', claim() + [j for j in live({'claim'})] + deep((3, 20, 10, 3), (3, 3, 1, 1000, 1)) + [J('h_auth', 5, only=['auth.paid', 'auth.destination'], reach=['ok'], expect=['auth.paid', 'auth.destination'])], [J('h_claim', 3, 1, 2), J('h_claim', 4, 0, 1)], B_STATE, O_STATE)
ACC11 = ['*.accrual', '*delegate_accrual', 'newcomer*']
prop('C11', [j for j in deposit(ACC11)[1:] + withdraw(ACC11) + slash(ACC11) + decrease(ACC11) + change(ACC11)] +
     [J('h_extend', 1, 1, 1, 0, 0, 0, 0, only=ACC11, reach=['ok']), J('h_extend', 0, 1, 1, 0, 1, 0, 0, only=ACC11, reach=['ok']), J('h_extend', 1, 1, 0, 1, 1, 0, 0, 3, 4, only=ACC11, reach=['ok'])] + newcomer(3),
     deposit(ACC11) + extend(ACC11) + [J('h_withdraw', 2, 2, 2, 1, 1, only=ACC11)], B_STATE, O_STATE)
prop('C12', distribute() + schedule(5) + live({'distribute'}) + deep((4, 200, 165, 300), (4, 365, 0, 2)), schedule(9) + [J('h_distribute', 3, 3, 1, 0)], B_STATE, O_STATE)
prop('C13', fill() + live({'fill'}), [J('h_fill', 4, 0)], B_STATE, O_STATE)
prop('C14', auth(1, 3, 4, 5, 6, 7, 8, 9, 10, 11) + [J('h_missing', t, reach=['short', 'full'], expect=['missing.refused', 'missing.kept']) for t in (1, 3, 4, 5, 6, 7, 8, 9, 10, 11)], (),
     'every instruction with every account of any address, owner program and signature; roles, recorded owner and pool, state and amounts arbitrary (at most one scheduled date)', O_STATE)
prop('C15', [J('h_iso', t) for t in (1, 3, 4, 5, 6, 7, 8, 10, 11)] + [J('h_iso_change', 1)], (), B_STATE, O_STATE)
prop('C16', close() + live({'close'}) + [J('h_auth', 8), J('h_iso', 8)], (), B_STATE, O_STATE)
prop('C17', [J('h_init_pool', 0, reach=['ok']), J('h_init_pool', 2, reach=['ok']), J('h_init_pool_bad', reach=['ran'])], (), B_STATE, O_STATE)
prop('C18', [J('h_init_mining', reach=['ok', 'refused'])], (), B_STATE, O_STATE)
SOLV = ['solvent.kept', 'solvent.no_more', 'solvent.no_less']
NM = ['solvent.no_more', 'solvent.kept', 'no-panic*']
prop('C08', [J('h_solvent', *p, only=['solvent.no_less', 'no-panic*'], reach=['ok'], expect=['solvent.no_less']) for p in ((1, 1, 0, 0), (2, 1, 0, 0), (2, 2, 0, 0), (2, 1, 1, 0), (3, 1, 0, 0))] +
     [J('h_solvent', *p, only=NM, reach=['ok'], expect=['solvent.no_more', 'solvent.kept'], xms=300000) for p in
      ((1, 1, 1, 0, 1), (2, 1, 0, 0, 1), (2, 2, 0, 0, 1), (2, 1, 1, 0, 1), (2, 2, 1, 2, 1), (2, 2, 1, 0, 1), (3, 1, 0, 0, 1), (3, 1, 1, 0, 1))],
     [J('h_solvent', *p, only=NM, reach=['ok'], xms=3000000) for p in ((2, 2, 1, 1, 1), (3, 2, 0, 0, 1), (3, 2, 1, 0, 1), (2, 3, 1, 0, 1))],
     'one to three participants with arbitrary stake, delegated stake and unclaimed rewards, at most one scheduled expiration each (before, between or after the distributions), one or two daily distributions of arbitrary size at arbitrary seconds, then everybody claims; amounts below 2^60 for "no more", below 2^44 for "no less"',
     'more participants or distributions at once (covered separately by the per-participant statement of C09)')
prop('C19', [J('h_capacity', c, e, reach=['refused'] if c in (0, 2, 6) else ['ok'], expect=[] if c in (0, 2, 6) else ['capacity.fits', 'capacity.own', 'capacity.pool']) for c in range(7) for e in (0, 1)] +
     [J('h_capacity_history', n, t, reach=['ok'], expect=['capacity.fits', 'capacity.history']) for n, t in ((1094, 0), (1095, 1), (30, 0))] +
     [J('h_capacity_history', 1095, 0, reach=['refused'])], (),
     'schedules of participant (50 dates) and pool (365 dates) and the distribution history (1095 days) filled to capacity or one below, with concrete dates and symbolic amounts, for deposit and extension and distribution',
     'other arrangements of the dates in a full schedule')
DEEP = ['deep.live', 'deep.schedule', 'deep.accrual', 'deep.settled']
prop('C24', deep((3, 30, 15, 4, 5), (2, 30, 15, 3, 9), (5, 8, 6, 3, 4), (0, 20, 15, 3, 8), (1, 20, 15, 2, 9), (4, 200, 165, 300), (4, 365, 0, 2), (3, 20, 10, 3), (5, 4, 8, 2), (3, 50, 0, 1, 1),
                (3, 50, 0, 5, 9), (0, 49, 0, 2, 9), (1, 45, 5, 2, 9), (2, 45, 5, 2, 9), (5, 45, 5, 2, 9), (5, 20, 20, 2, 9), (3, 3, 1, 1000, 1),
                (6, 20, 15, 2, 9), (7, 20, 15, 2, 9), (8, 20, 15, 2, 9), (9, 20, 15, 2, 9)),
     deep((0, 30, 15, 4, 5), (1, 30, 15, 4, 5), (1, 4, 4, 4), (0, 5, 5, 5), (5, 10, 6, 3, 4), (4, 300, 60, 1000), (6, 45, 4, 3, 7), (7, 45, 5, 3, 7), (8, 40, 9, 3, 7), (9, 45, 5, 3, 7)),
     'up to 50 dates in a participant schedule and 365 in the pool schedule, up to 1000 distributions in the history; concrete dates and slot order, every amount, share and rewards index symbolic', 'other arrangements of dates')
prop('C20', [J('h_lockup', 0, reach=['none', 'some'], expect=['lockup.multiplier', 'lockup.none', 'lockup.midnight', 'lockup.end', 'lockup.days', 'lockup.order', 'lockup.day'])], (),
     'all five periods, every start below 2^62 seconds', 'start times of 2^62 and above')
prop('C21', [J('h_builders', t, reach=['built'], expect=['builder.program', 'builder.data', 'builder.accounts']) for t in range(12)] +
     [J('h_decode', a, b, reach=['refused'], expect=['decode.accepts', 'decode.error'] + (['decode.kind', 'decode.fields'] if b != 110 else [])) for a, b in ((0, 20), (21, 40), (41, 60), (61, 80), (81, 95), (96, 110))] +
     [J('h_strict', t, reach=['short', 'long', 'unknown'], expect=['strict.short', 'strict.long', 'strict.unknown']) for t in (1, 3, 4, 5, 6, 7, 8, 9, 10, 11)] +
     [J('h_address', 0, reach=['ok'], expect=['address.mining', 'address.create', 'address.vault', 'address.order', 'address.kinds'])], (),
     'all twelve instructions with every address, amount, date and period; instruction data of every length up to 110 bytes with every content', 'longer instruction data')
prop('C22', [J('h_client', t, 0, reach=['built'], expect=['client.id', 'client.program', 'client.data', 'client.accounts', 'client.cpi', 'client.cpi_program', 'client.cpi_data', 'client.cpi_accounts']) for t in range(12)] +
     [J('h_client_codes', 0, reach=['period', 'type'], expect=['client.error', 'client.period', 'client.account_type'])], (),
     'all twelve instructions, five ways of building each (plain, extra accounts, builder, call, call builder), every address and argument; every byte for the enumerations', 'the JavaScript client')
prop('C23', [J('h_layout_pool', 0, reach=['ok'], expect=['layout.size', 'layout.kind', 'layout.pool', 'layout.readonly', 'layout.readonly_schedule', 'layout.readonly_history', 'layout.client']),
             J('h_layout_mining', 0, reach=['ok'], expect=['layout.size', 'layout.kind', 'layout.mining', 'layout.readonly', 'layout.readonly_schedule', 'layout.client'])], (),
     'every content of the 176 and 144 header bytes; two schedule dates and two history entries in either order', 'longer schedules in the layout comparison')
# decided by jsx/ (see jscheck.py)
PROPS['C26'] = Prop((), (), 'all twelve instructions with every argument of 64 bits (as bigint, or as number up to 2^53), every address given as key or derived address, every choice of optional accounts, every period and both ways of passing or leaving out the date; every content of both accounts; fetches of one and of two accounts, each there or not; every error number of 32 bits',
                    'fetches of more than two accounts, arguments outside the declared types, the umi library itself',
                    ['@metaplex-foundation/umi and its serializers are not in the repository: jsx/umi.mjs stands in for them by their documented behaviour (little-endian integers with range checks, structs in field order, 32-byte keys, one-byte option and enumeration prefixes, registered programs before defaults)',
                     'type annotations are erased, as the TypeScript compiler does; inputs have the declared types',
                     'z3 answers are trusted for unsat; every path and every counterexample is run again on concrete values in the client without instrumentation'], js=True)
LEAVE = ['leave.' + x for x in 'deposit withdraw claim close nothing_left lamports others delegated'.split()]
EV = {3: 'claim', 4: 'change', 5: 'extend', 6: 'slash', 7: 'again', 2: 'distribute'}


def leave(period, evs, late, late_evs=()):
    """period, two events in between (1 = none), period of extensions and second deposits, distribution at the end"""
    js = []
    for x, y in evs:
        e = LEAVE + ['leave.' + EV[v] for v in {x, y} if v in EV]
        js.append(J('h_leave', period, x, y, 0, late, reach=['ok'], expect=e))
    return js


QUIET = (1, 3, 4, 5, 6, 7)
prop('C27', leave(0, [(x, y) for x in QUIET for y in QUIET if x != 1 or y == 1], 1) +
     leave(1, [(2, 1), (2, 3), (2, 4), (2, 6), (3, 2), (4, 2)], 1) + leave(2, [(1, 1)], 2) + leave(4, [(2, 1)], 1) + leave(3, [(1, 6)], 2),
     leave(1, [(2, 2), (2, 5), (2, 7), (5, 2), (6, 2), (7, 2)], 1) + leave(0, [(1, x) for x in QUIET], 2) + leave(0, [(2, 1), (2, 3), (2, 4), (2, 6)], 1) + leave(2, [(2, 1)], 2),
     'a participant with one deposit of any amount below 2^42 for any period at any time, on a pool with other stake of which any part expires on the same day; up to two events in between (claim, distribution, delegate change, extension, partial slash, second deposit), each up to 511 days after the one before; then withdrawal of everything once the lockup has ended, claim and close at any later time; distributions at most 4000 tokens per unit of stake in total',
     'more than two events in between, several participants doing so at once, the rewards penalty (which takes stake for good)')
prop('C28', [J('h_idl', t, reach=['built'], expect=['idl.instructions', 'idl.data', 'idl.accounts', 'idl.signers', 'idl.writable']) for t in range(12)] +
     [J('h_idl_state', i, reach=['ok'], expect=['idl.state', 'idl.field', 'idl.size']) for i in (0, 1)] +
     [J('h_idl_codes', 0, reach=['period', 'type'], expect=['idl.address', 'idl.errors', 'idl.period', 'idl.account_type'])], (),
     'all twelve instructions with every argument and address; every content of both account headers; every byte for the enumerations', 'the texts of the description')
prop('C29', [J('h_entry', t, reach=['ok', 'refused'], expect=['entry.accepted', 'entry.calls', 'entry.return', 'entry.lamports', 'entry.owner', 'entry.state', 'entry.refused']) for t in range(12)], (),
     'every instruction on accounts with symbolic stake, funds, dates and lamports: as it should be, with an account missing, any one signature only, data cut short, any unknown tag, another program id', 'the deserializer of the chain library on malformed input (the runtime makes the input); compute and heap limits')
prop('C30', [J('h_kind', t, reach=['pool'] + (['participant'] if t not in (1, 7) else []), only=['kind.*'], expect=['kind.pool'] + (['kind.participant'] if t not in (1, 7) else [])) for t in (1, 3, 4, 5, 6, 7, 8, 9, 10, 11)], (),
     'every instruction and every place of an account of the program in it; any stake, funds, dates; a posing pool with any addresses for its roles and mint and any funds', 'pools with stake or history posing as participants; initialising a participant reads nothing of the pool (C18)')
ALL = {'deposit', 'withdraw', 'extend', 'change', 'slash', 'decrease', 'claim', 'close', 'distribute', 'fill'}
prop('C25', live(ALL), live(ALL, True), B_STATE, O_STATE)
