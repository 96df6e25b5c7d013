#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (python3 tools_props.py)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
S = 'programs/rewards/src/'
RP, MI, IX = S + 'state/reward_pool.rs', S + 'state/mining.rs', S + 'instructions/'
P, NA = [], []


def p(id, title, statement, over, text, why, files, mech, level_note, state=()):
    P.append((dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                   anchors={'files': files, 'state': [dict(name=a, meaning=b, where=c) for a, b, c in state],
                            'mechanism': [dict(name=a, where=b) for a, b in mech],
                            'observe_at': ['account data, token balances and result after one processed instruction'], 'hook_needed': None}), level_note))


SAMPLE = 'The 10 stable unit tests only exercise lockup arithmetic, layout and one decrease example; the integration tests need a validator and sample a handful of amounts and days. The property is over every amount, date, schedule and rewards history at once.'
NOTE = 'Decided by symbolic execution of the compiled instruction handler (LLVM IR from /repo) with z3 over all values of amounts, dates, balances and indices, within the stated bounds on schedule and history lengths; runtime services (clock, rent, address derivation, token and system program calls) are contract stubs. Every counterexample is replayed natively.'

p('C01', 'A deposit adds exactly the agreed weighted stake until it expires',
  'A successful deposit of an amount for a lockup period raises the participant\'s and the pool\'s weighted stake by amount x period multiplier from the day of the deposit until the start of the day on which the lockup ends, and by the plain amount from then on; a separate delegate\'s delegated stake and the pool\'s stake grow by the plain amount. Nothing else changes: other scheduled expirations, roles, distribution schedule and already promised rewards stay as they were. A deposit with no period is refused; any other one that every account can hold succeeds.',
  ['inputs', 'configurations'], 'every amount, period, time of day, pre-existing schedule (bounded number of dates), rewards history, with and without a separate delegate', SAMPLE,
  [RP, IX + 'deposit_mining.rs', S + 'utils.rs', MI], [('deposit', RP), ('LockupPeriod::multiplier/end_timestamp', S + 'utils.rs'), ('refresh_rewards', MI)], NOTE,
  [('weighted stake', 'stake x multiplier, minus reductions scheduled for reached dates', RP)])
p('C02', 'A withdrawal removes exactly its amount and never more than is free',
  'A successful withdrawal lowers the participant\'s and the pool\'s weighted stake by exactly the amount, on every date from today on, and a separate delegate\'s delegated stake (and again the pool\'s) by the same amount. It succeeds only if the participant\'s stake left after all expirations due today, and the delegate\'s delegated stake, cover the amount, and then it does succeed. Nothing else changes.',
  ['inputs', 'configurations'], 'every amount, time, schedule, history and delegate configuration', SAMPLE,
  [RP, IX + 'withdraw_mining.rs', MI], [('withdraw', RP), ('consume_old_modifiers', RP), ('refresh_rewards', MI)], NOTE)
p('C03', 'Extending a stake replaces the old lockup by the new one exactly',
  'A successful extension of a stake that is still locked removes its old weighted stake and its old scheduled expiration, both from the participant and from the pool; one that has run out removes the plain amount. It then has the effect of a deposit of base plus additional amount for the new period starting now, and the delegate\'s delegated stake grows by the additional amount only. Missing periods are refused; an extension of a stake the participant holds succeeds at every moment, the second of its expiry included.',
  ['inputs', 'configurations'], 'every pair of periods, start time, base and additional amount, schedule and history', SAMPLE,
  [RP, IX + 'extend_stake.rs', S + 'utils.rs'], [('extend', RP), ('modify_weighted_stake_diffs', RP)], NOTE)
p('C04', 'Changing delegate moves exactly the staked amount between delegates',
  'A successful change of delegate lowers the old delegate\'s delegated stake and raises the new one\'s by the given amount, where self-delegation counts as no delegate, and the pool\'s stake changes by the same net amount. The participant\'s own stake and every schedule are untouched, and all parties keep what they earned before. Changing to the same delegate is refused; a change that old delegate and participant cover succeeds.',
  ['inputs', 'configurations'], 'every amount, combination of old and new delegate (self, first, second), schedule and history', SAMPLE,
  [RP, IX + 'change_delegate.rs'], [('change_delegate', RP)], NOTE)
p('C05', 'Slashing removes exactly the slashed weighted stake and its schedule',
  'A successful slash lowers the weighted stake of participant and pool by the given weighted amount now, and the reduction scheduled for the given expiration date by the difference between weighted and native amount, so that from that date on only the native amount is missing. It is refused if the participant does not hold that much weighted stake today or the scheduled reduction does not cover the difference, and succeeds otherwise.',
  ['inputs'], 'every native and weighted amount, expiration date or none, schedule, history', SAMPLE,
  [RP, IX + 'penalties/slash.rs'], [('slash', RP), ('withdraw', RP)], NOTE)
p('C06', 'A rewards penalty cuts the participant\'s stake now and never raises it later',
  'A successful rewards decrease lowers the participant\'s weighted stake by the given amount today and lowers what is scheduled to expire later, latest date first, by up to the same amount in total. The participant\'s stake is then on no later date above what it would have been without the penalty; the pool is untouched and rewards earned before the penalty are kept. It is refused if the participant holds less than the amount today and succeeds otherwise.',
  ['inputs'], 'every amount, schedule and history', SAMPLE,
  [MI, IX + 'penalties/decrease_rewards.rs'], [('decrease_rewards', MI)], NOTE)
p('C07', 'Pool stake always equals the sum of its participants\' stakes',
  'Every instruction changes the pool\'s total weighted stake on every future date by exactly the sum of the changes of the weighted stakes (own and delegated) of the participants involved. Starting from an empty pool the total therefore equals the sum over participants after any history, except that a rewards penalty may leave it larger. Distributing, claiming and closing leave the stake of every date as it was.',
  ['inputs', 'histories'], 'every instruction with every argument from every consistent state, at an arbitrary later date; histories by induction over instructions', SAMPLE,
  [RP, MI], [('deposit, withdraw, extend, slash, change_delegate', RP), ('refresh_rewards, decrease_rewards', MI)], NOTE)
p('C09', 'Rewards accrue in proportion to the stake held at each distribution',
  'Whenever a participant or delegate is brought up to date, it is credited for each past distribution not yet credited the rewards per unit of stake of that distribution times the own and delegated stake it held at that time, reduced by each scheduled expiration from its date on. Each day\'s distribution raises the rewards per unit by the distributed tokens over the pool\'s stake left on that day. Nothing is credited twice or skipped.',
  ['inputs', 'histories'], 'every history of distributions (bounded number), schedule, stake, delegated stake and time; every instruction that brings accounts up to date', SAMPLE,
  [MI, RP], [('refresh_rewards', MI), ('update_index', RP), ('find_max_value_limited_by_key', S + 'utils.rs')], NOTE)
p('C10', 'A claim pays exactly what was earned, once',
  'A successful claim transfers from the pool\'s vault to the participant\'s token account exactly the unclaimed rewards including those accrued up to now, reports that amount, and leaves nothing unclaimed; claiming again without a new distribution pays nothing. It changes no stake and nothing of the pool\'s books. A participant with rewards covered by the vault can always claim them.',
  ['inputs', 'histories'], 'every unclaimed amount, stake, schedule, distribution history, vault and wallet balance', SAMPLE,
  [IX + 'claim.rs', MI], [('process_claim', IX + 'claim.rs'), ('claim', MI)], NOTE)
p('C11', 'Stake changes never alter rewards of earlier distributions',
  'What a participant or a delegate is owed for distributions that already happened, including one made in the same second, is the same whether or not its stake or delegated stake is changed by a deposit, withdrawal, extension, delegate change, slash or penalty before it claims. A participant that starts now is owed nothing for the past.',
  ['inputs', 'histories'], 'every instruction that changes a stake, every amount, schedule and distribution history', SAMPLE,
  [RP, MI], [('refresh_rewards', MI), ('deposit, withdraw, extend, change_delegate', RP)], NOTE)
p('C12', 'Each day distributes its share of the available tokens once',
  'A distribution takes an equal share (rounded down) of the available tokens for each whole day left until the end date, or all of them when no whole day is left, and no more than are available; it happens at most once per day, and a repeated call on the same day changes nothing. Following the schedule empties the pool by its end date. A pool without stake does not distribute, and nothing but the available amount, the rewards per unit, today\'s history entry and expirations due change.',
  ['inputs', 'histories'], 'every available amount, end date, stake, schedule and history; up to five (nine) consecutive daily distributions at any second', SAMPLE,
  [RP, IX + 'distribute_rewards.rs'], [('distribute, rewards_to_distribute, update_index', RP)], NOTE)
p('C13', 'Funding moves the tokens, books them, and never shortens the schedule',
  'A successful funding transfers exactly the given non-zero amount from the funder\'s token account to the pool\'s vault, raises the available amount by it, and sets the end of distribution to the start of the given day, which is neither before today nor before the current end. Nothing else changes, and every funding that meets these conditions succeeds.',
  ['inputs'], 'every amount, end date, time, balance and previous schedule', SAMPLE,
  [IX + 'fill_vault.rs'], [('process_fill_vault', IX + 'fill_vault.rs')], NOTE)
p('C14', 'Only the authorised signer can use each instruction',
  'No instruction succeeds unless the accounts it must be authorised by have signed and are the recorded ones: the pool\'s deposit authority for stake changes, claims, closing, delegate changes and penalties, the participant in addition for claims, closing and delegate changes, the pool\'s fill authority for funding and its distribute authority for distributing. Nobody can act on a participant account that is not that of the named or signing owner, pay a claim from any other account than the pool\'s vault, or take funding from an account other than the given source.',
  ['inputs', 'configurations'], 'every address and signature flag of every account of every instruction, symbolic addresses', 'Tests try a few wrong signers; the property is over every combination of accounts, addresses and signature flags an attacker can pass.',
  [S + 'asserts.rs', S + 'instructions/mod.rs', IX + 'claim.rs', IX + 'fill_vault.rs'], [('AccountLoader, assert_account_key, assert_account_owner', S)], NOTE)
p('C15', 'One pool\'s instructions never touch another pool\'s books',
  'Whatever accounts of two pools and their participants are passed to an instruction in whatever roles, a successful instruction changes only one pool, only participant and delegate accounts belonging to that pool, and moves tokens only from or to that pool\'s vault. The stake bookkeeping of each pool with its participants stays balanced.',
  ['inputs', 'configurations'], 'every combination of pool, participant, delegate and vault accounts of two pools with shared authority, mint and owners', 'No test passes accounts of a second pool; the property is over every mix of accounts.',
  [S + 'instructions/mod.rs', IX + 'change_delegate.rs', IX + 'close_mining.rs'], [('assert_and_get_pool_and_mining, verify_delegate_mining_address', S)], NOTE)
p('C16', 'A participant account is closed only when nothing is owed to or delegated to it',
  'A participant account is closed only if, brought up to date against its own pool, no rewards are unclaimed and no stake is delegated to it; all its lamports go to the target account, its data is erased, and the pool is untouched. An account that meets these conditions can be closed by its owner and the deposit authority together, nobody else.',
  ['inputs', 'histories'], 'every state of the account, distribution history, balances and accounts passed', SAMPLE,
  [IX + 'close_mining.rs', MI], [('process_close_mining', IX + 'close_mining.rs')], NOTE)
p('C17', 'A pool is initialised once, empty, with a vault it controls',
  'Initialising a pool succeeds only for an account of the right size owned by the program and for the vault address derived from pool and mint, with deposit authority and payer signing; it records the given authorities and mint, starts with no stake, schedule, history or tokens, and creates a rent-exempt token account of the mint controlled by the deposit authority, also when somebody sent lamports to the address of the vault before. A pool that is initialised can never be initialised again, whatever happened since, and is left as it is.',
  ['inputs', 'histories'], 'every authority, address, pool content, alternative mint and vault', 'Tests initialise one pool; re-initialisation after arbitrary use and arbitrary vault addresses are not tried.',
  [IX + 'initialize_pool.rs'], [('process_initialize_pool', IX + 'initialize_pool.rs')], NOTE)
p('C18', 'A participant account is created once, empty, at its derived address',
  'Creating a participant account succeeds exactly for the address derived from owner and pool, on a pool account owned by this program and paid by a signer, also when somebody sent lamports to that address before; the new account is rent exempt, belongs to owner and pool, and has no stake, schedule or rewards. An existing one is never overwritten.',
  ['inputs', 'configurations'], 'every owner, address and account state', 'Tests create a few accounts; wrong addresses and existing accounts are not tried.',
  [IX + 'initialize_mining.rs'], [('process_initialize_mining', IX + 'initialize_mining.rs')], NOTE)
p('C08', 'Participants together never get more than was distributed',
  'After any distributions, the rewards all participants of a pool can claim for them add up to no more than the tokens those distributions took from the available amount, and to no less except for rounding below one token per participant, stretch between expirations and distribution, as long as the pool\'s weighted stake stays below the precision of the index, 10^16. Rewards a participant had before are paid in addition.',
  ['inputs', 'histories'], 'every stake, delegated stake and scheduled expiration of up to three participants and every amount and time of up to two distributions', SAMPLE,
  [RP, MI], [('update_index', RP), ('refresh_rewards, update_index', MI)], NOTE)
p('C19', 'A full schedule or history refuses, it never loses an entry',
  'An instruction that needs a new date in a participant\'s or the pool\'s schedule or a new day in the distribution history either records it completely or fails as a whole: stake, schedules and rewards never diverge because something did not fit. It fits whenever there is room, the date is already scheduled, or due entries make room.',
  ['inputs', 'histories'], 'schedules and history at and just below capacity, every amount', 'Tests never fill a schedule; the failure needs 50 or 365 dates or 1095 days of history.',
  [RP, MI], [('deposit, extend, update_index (insertions)', RP)], NOTE)
p('C20', 'Lockup terms: multiplier and end of each period',
  'A lockup of flexible, three, six or twelve months multiplies the stake by 1, 2, 4 or 6 and ends at the start of the day 5, 90, 180 or 365 days after the day it starts, whatever the second of the day. The unused period has no weight and no end and is refused.',
  ['inputs'], 'every period and every start time', 'The unit tests check single start times per period; the property is over every second.',
  [S + 'utils.rs'], [('LockupPeriod', S + 'utils.rs')], NOTE)
p('C21', 'Instruction encoding: builders and decoder agree for every argument',
  'For every argument each instruction builder produces the documented bytes and the accounts in the documented order with the signer and writable flags the program needs, and decoding gives back exactly the arguments. Every other byte string (unknown instruction, wrong length, unknown period) is refused, never decoded as something else and never a panic. The derived addresses of participant accounts and vaults are those documented.',
  ['inputs'], 'every argument and address of the twelve instructions; every byte string up to 110 bytes', 'No test covers encodings for arbitrary arguments or malformed data.',
  [S + 'instruction.rs', S + 'utils.rs', S + 'instructions/mod.rs'], [('RewardsInstruction, builders', S + 'instruction.rs'), ('find_mining_program_address, find_vault_program_address', S + 'utils.rs')], NOTE)
p('C22', 'The generated Rust client speaks the program\'s protocol',
  'For every instruction and every argument the Rust client, in each of the ways it offers, sends to the program\'s id the same data and the same accounts in the same order as the program takes, with the same signers and at least the writable accounts the program writes; extra accounts follow these with the flags they were given. Its error numbers, periods and account kinds are the program\'s.',
  ['inputs'], 'every argument and address of the twelve instructions, nine ways to build each', 'The client has no tests; a mismatch shows only when the program refuses the call.',
  ['clients/rust/src/generated', S + 'instruction.rs'], [('instructions', 'clients/rust/src/generated/instructions'), ('shank annotations', S + 'instruction.rs')], NOTE)
p('C23', 'Account data has one layout for program, readers and client',
  'For every content of a pool or participant account the program\'s writable view, its read-only view and the Rust client\'s decoded account give the same value for every field, at the fixed documented offsets and sizes. The kind byte tells pools from participant accounts.',
  ['inputs'], 'every content of the header bytes, small schedules and histories', 'Tests check sizes, not that every field agrees for every content.',
  [RP, MI, 'clients/rust/src/generated/accounts'], [('WrappedRewardPool, WrappedImmutableRewardPool', RP), ('WrappedMining, WrappedImmutableMining', MI)], NOTE)
p('C24', 'Every due expiration takes effect once, however many fall due',
  'When any number of scheduled expirations have fallen due since an account was last touched, the next instruction applies each of them exactly once, in order and with rewards of the days between computed on the stake held then, removes them from the schedule and leaves the later ones in place. This holds for long schedules and histories stored in any slot order.',
  ['inputs', 'histories'], 'schedules of up to 45 (participant) and 365 (pool) dates and hundreds of distributions, every amount', SAMPLE,
  [RP, MI], [('consume_old_modifiers', RP), ('consume_old_modifiers', MI), ('find_max_value_limited_by_key', S + 'state/mod.rs')], NOTE)
p('C25', 'Valid operations succeed and never panic',
  'From every consistent state with amounts, indices and balances in a realistic range, every deposit with a period, withdrawal or delegate change covered by the stake held, extension of an existing stake, slash or penalty within the stake held, distribution on a pool with stake, claim covered by the vault, valid funding and close of an empty account succeeds. None of them panics.',
  ['inputs', 'histories'], 'amounts below 2^40..2^46, reward index below 2^66, bounded schedules and histories', SAMPLE,
  [S], [('SafeArithmeticOperations', S + 'utils.rs'), ('all handlers', IX)], NOTE)

JS_NOTE = ('The TypeScript sources in /repo are transpiled, every operator, branch and index routed through a small concolic executor (jsx/), and run on symbolic inputs until z3 '
           'finds no further branch to take; each assertion is decided by z3 over all inputs of its path, each path and counterexample is run again in the client as shipped. '
           '@metaplex-foundation/umi is not in the repository; its documented behaviour is a stand-in (jsx/umi.mjs). Bounds: two accounts per fetch.')
p('C26', 'The generated JavaScript client speaks the program\'s protocol',
  'For every instruction, every argument and every choice of the accounts that may be left out, the JavaScript client sends to the registered program, or else to the canonical id, the same data and the same accounts in the same order as the program takes, with the same signers, at least the writable accounts the program writes and the documented defaults (payer, rent, token and system program). Accounts are decoded, encoded, fetched and filtered at the offsets and sizes at which the program stores them, and periods, account kinds, error numbers, names and messages are the program\'s.',
  ['inputs'], 'every argument, address, account content and error number; every choice of optional accounts', 'The client has no tests that run; a mismatch shows only when the program refuses the call.',
  ['clients/js/src'], [('instructions', 'clients/js/src/generated/instructions'), ('accounts', 'clients/js/src/generated/accounts'), ('errors', 'clients/js/src/generated/errors'), ('getAccountMetasAndSigners', 'clients/js/src/generated/shared/index.ts')], JS_NOTE)

p('C27', 'A participant can always leave',
  'Whoever deposited can, once the lockup of every deposit has ended, withdraw everything not slashed, claim, and close the account, whatever happened in between: claims, distributions, delegate changes, extensions, further deposits, partial slashes, at any time and in any order. Each of these steps succeeds; afterwards no stake of the participant is left in the pool or with its delegate, and the pool still holds exactly the stake and schedule of the others.',
  ['inputs', 'histories'], 'every amount, period, time and order of up to two events between deposit and withdrawal', SAMPLE,
  [S], [('deposit, withdraw, extend, slash, change_delegate, distribute', RP), ('claim, close, consume_old_modifiers', MI)], NOTE)

p('C28', 'The published interface description is true',
  'The interface description in idls/ describes the program: instruction data encoded and accounts listed as it says are, name by name and for every argument and address, what the program\'s own builders produce, with the same signers and at least the accounts the program writes marked writable. The fields of both accounts lie where it says for every content, and the program\'s address, error numbers, periods and account kinds are those it gives.',
  ['inputs'], 'every argument and address of the twelve instructions, every account content, every byte of the enumerations', 'Nothing reads the description but the generator of clients; an error in it shows in clients made from it.',
  ['idls', 'programs/rewards/src/instruction.rs', 'programs/rewards/src/state'], [('description', 'idls/mplx_rewards.json'), ('RewardsInstruction', 'programs/rewards/src/instruction.rs'), ('RewardPool', 'programs/rewards/src/state/reward_pool.rs'), ('Mining', 'programs/rewards/src/state/mining.rs')], NOTE)

p('C29', 'The entry point is the program',
  'The entry point called by the chain processes exactly the accounts, instruction data and program id it is given: it reports success if and only if processing succeeds, with every change in the accounts given and the same calls and return data, and otherwise reports the number of the error, so that nothing of a refused instruction is kept.',
  ['inputs'], 'every instruction, accepted or refused for a missing account, a missing signature, damaged data or a wrong program id, with symbolic amounts', 'The unit tests never run the entry point; the integration tests need a validator and do not compare error numbers.',
  [S + 'entrypoint.rs', S + 'error.rs', IX + 'mod.rs'], [('program_entrypoint', S + 'entrypoint.rs'), ('process_instruction', IX + 'mod.rs')], NOTE)

p('C30', 'An account is only taken for what it is',
  'Where an instruction takes a participant account, any other account of the program is refused whatever its content: a pool, whatever roles and mint its creator chose, a closed account, the account of the same participant in another pool. Where it takes a pool, a participant account and an account that was never initialised or is closed are refused.',
  ['inputs'], 'every instruction, every place in it, every content such an account can be given', 'The tests pass accounts of the right kind only; what an attacker can put in an account is not sampled.',
  ['programs/rewards/src/instructions', 'programs/rewards/src/asserts.rs'], [('assert_and_get_pool_and_mining', 'programs/rewards/src/asserts.rs'), ('process_claim', 'programs/rewards/src/instructions/claim.rs'), ('process_close_mining', 'programs/rewards/src/instructions/close_mining.rs'), ('verify_delegate_mining_address', 'programs/rewards/src/utils.rs')], NOTE)

EXTRA = os.path.join(HERE, 'tools_props_more.py')
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

if __name__ == '__main__':
    P.sort(key=lambda x: x[0]['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, _ in P:
            f.write(json.dumps(d) + '\n')
    na = {x[0]['id']: r for x, r in NA}
    m = {'version': 1, 'setup_cmd': 'bash setup.sh',
         'checks': [{'property': d['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % d['id'],
                     'thorough_cmd': 'python3 check.py %s --tier thorough' % d['id'], 'evidence_file': 'evidence/%s.json' % d['id'],
                     'technique': 'concolic execution of the client\'s TypeScript sources with z3, replay of counterexamples in the client as shipped' if d['id'] == 'C26' else 'symbolic execution of the compiled instruction handlers (LLVM IR) with z3, native replay of counterexamples',
                     'level': 'model_checking', 'level_note': n} for d, n in P if d['id'] not in na],
         'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(na.items())],
         'notes': 'No hooks in /repo: the harness crate uses the public API only. Bounds and what lies outside them are in each evidence file and in DESIGN.md.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
