// node main.mjs REPO OUT [--seconds N] [--paths N] [--job NAME] | node main.mjs REPO --replay FILE
import fs from 'node:fs';
import path from 'node:path';
import { explore, runConcrete, globals, stats, show } from './engine.mjs';
import { makeUmi } from './umi.mjs';
import { load } from './transform.mjs';
import { jobs } from './client.mjs';

const [repo, out] = process.argv.slice(2);
const opt = (n, d) => { const i = process.argv.indexOf('--' + n); return i < 0 ? d : process.argv[i + 1]; };
const root = path.join(repo, 'clients/js/src');
const symUmi = makeUmi(false), natUmi = makeUmi(true);
const nat = load(root, natUmi.env, null);
const N = { S: natUmi.S, umi: natUmi.umi, client: nat.exports };

if (out === '--replay') {
  const c = JSON.parse(fs.readFileSync(opt('replay'), 'utf8'));
  const model = Object.fromEntries(Object.entries(c.inputs).map(([k, v]) => [k, typeof v === 'string' ? BigInt(v) : v]));
  const j = jobs().find((x) => x.name === c.job);
  const r = await runConcrete(() => j.run(N), model);
  for (const [k, v] of Object.entries(c.inputs)) console.log(`  ${k} = ${v}`);
  for (const a of r.asserts.filter((x) => !x.t.v)) console.log('V ' + a.label + (a.why ? ': ' + a.why : ''));
  process.exit(0);
}
const sym = load(root, symUmi.env, globals);
const M = { S: symUmi.S, umi: symUmi.umi, client: sym.exports };
const deadline = Date.now() + 1000 * Number(opt('seconds', 600));
const res = [];
for (const j of jobs()) {
  if (opt('job') && opt('job') !== j.name) continue;
  const before = { ...stats }, t0 = Date.now();
  const r = await explore(j.name, () => j.run(M), () => j.run(N), { maxPaths: Number(opt('paths', 5000)), deadline, stopAtFirst: true });
  if (!r.cexs.length && !r.errors.length && !r.incomplete.length) {
    for (const l of j.reach) if (!r.reach[l]) r.errors.push(`${j.name}: vacuous, no path reaches "${l}"`);
    for (const l of j.expect) if (!r.asserts[l]) r.errors.push(`${j.name}: vacuous, assertion "${l}" never evaluated`);
  }
  for (const k of Object.keys(stats)) r[k] = k === 'max_query_s' ? stats[k] : stats[k] - before[k];
  r.wall_s = (Date.now() - t0) / 1000;
  res.push(r);
}
fs.writeFileSync(out, JSON.stringify({ jobs: res, files: sym.files }));
