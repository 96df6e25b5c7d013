// TypeScript of the client -> JavaScript: once as it is, once with every operator, branch and indexing routed
// through the engine.
import { createRequire } from 'node:module';
import fs from 'node:fs';
import path from 'node:path';
import vm from 'node:vm';
import { createHash } from 'node:crypto';
const ts = createRequire('/opt/veriftools/node/node_modules/')('typescript');
const SK = ts.SyntaxKind;

const OPS = new Set(['+', '-', '*', '/', '%', '**', '&', '|', '^', '<<', '>>', '>>>', '<', '<=', '>', '>=', '===', '!==', '==', '!=']);
const COMPOUND = new Set(['+=', '-=', '*=', '/=', '%=', '**=', '&=', '|=', '^=', '<<=', '>>=', '>>>=']);

export const instrument = (ctx) => (file) => {
  const f = ctx.factory;
  let uid = 0;
  const call = (name, ...args) => f.createCallExpression(f.createPropertyAccessExpression(f.createIdentifier('$'), name), undefined, args);
  const str = (s) => f.createStringLiteral(s);
  const strip = (e) => { while (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isSatisfiesExpression?.(e)) e = e.expression; return e; };
  const isType = (n) => ts.isTypeNode(n) || ts.isTypeAliasDeclaration(n) || ts.isInterfaceDeclaration(n);
  const assigned = (n) => { // an element access that is written to, deleted or called
    const p = n.parent;
    return (ts.isBinaryExpression(p) && p.left === n && p.operatorToken.kind >= SK.FirstAssignment && p.operatorToken.kind <= SK.LastAssignment)
      || ts.isDeleteExpression(p) || ts.isPrefixUnaryExpression(p) || ts.isPostfixUnaryExpression(p) || (ts.isCallExpression(p) && p.expression === n)
      || ts.isArrayLiteralExpression(p) || ts.isForOfStatement(p) || ts.isForInStatement(p) || n.questionDotToken;
  };
  const cond = (e) => call('t', go(e));
  const go = (n) => ts.visitNode(n, visit);
  function visit(n) {
    if (isType(n) || ts.isEnumDeclaration(n)) return n;
    if (ts.isBinaryExpression(n)) {
      const op = ts.tokenToString(n.operatorToken.kind);
      if (OPS.has(op)) return call('bin', str(op), go(n.left), go(n.right));
      if (op === '&&') return f.createConditionalExpression(call('t', call('push', go(n.left))), undefined, f.createParenthesizedExpression(f.createComma(call('pop'), go(n.right))), undefined, call('pop'));
      if (op === '||') return f.createParenthesizedExpression(f.createConditionalExpression(call('t', call('push', go(n.left))), undefined, call('pop'), undefined, f.createParenthesizedExpression(f.createComma(call('pop'), go(n.right)))));
      if (op === '??') return f.createParenthesizedExpression(f.createConditionalExpression(call('nn', call('push', go(n.left))), undefined, call('pop'), undefined, f.createParenthesizedExpression(f.createComma(call('pop'), go(n.right)))));
      if (COMPOUND.has(op)) {
        const l = strip(n.left), base = str(op.slice(0, -1));
        if (ts.isIdentifier(l)) return f.createParenthesizedExpression(f.createAssignment(l, call('bin', base, l, go(n.right))));
        if (ts.isPropertyAccessExpression(l)) return call('upd', go(l.expression), str(l.name.text), base, go(n.right));
        if (ts.isElementAccessExpression(l)) return call('upd', go(l.expression), go(l.argumentExpression), base, go(n.right));
      }
    }
    if (ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) {
      const op = ts.tokenToString(n.operator);
      if (op === '++' || op === '--') {
        const d = f.createNumericLiteral(1), by = op === '--' ? f.createPrefixUnaryExpression(SK.MinusToken, d) : d, l = strip(n.operand), post = ts.isPostfixUnaryExpression(n);
        if (ts.isIdentifier(l)) {
          const set = f.createAssignment(l, call('inc', l, by));
          return f.createParenthesizedExpression(post ? f.createComma(f.createComma(call('push', l), set), call('pop')) : set);
        }
        if (ts.isPropertyAccessExpression(l)) return call('incp', go(l.expression), str(l.name.text), by, post ? f.createTrue() : f.createFalse());
        if (ts.isElementAccessExpression(l)) return call('incp', go(l.expression), go(l.argumentExpression), by, post ? f.createTrue() : f.createFalse());
      } else if (!(op !== '!' && ts.isNumericLiteral(n.operand)) && !ts.isBigIntLiteral(n.operand)) return call('un', str(op), go(n.operand));
    }
    if (ts.isTypeOfExpression(n)) { if (!ts.isIdentifier(n.expression) || n.expression.text !== 'undefined') return call('typeof', go(n.expression)); }
    if (ts.isConditionalExpression(n)) return f.createParenthesizedExpression(f.createConditionalExpression(cond(n.condition), undefined, go(n.whenTrue), undefined, go(n.whenFalse)));
    if (ts.isIfStatement(n)) return f.updateIfStatement(n, cond(n.expression), go(n.thenStatement), n.elseStatement && go(n.elseStatement));
    if (ts.isWhileStatement(n)) return f.updateWhileStatement(n, cond(n.expression), go(n.statement));
    if (ts.isDoStatement(n)) return f.updateDoStatement(n, go(n.statement), cond(n.expression));
    if (ts.isForStatement(n)) return f.updateForStatement(n, n.initializer && go(n.initializer), n.condition && cond(n.condition), n.incrementor && go(n.incrementor), go(n.statement));
    if (ts.isSwitchStatement(n)) {
      const v = f.createIdentifier('$s' + uid++);
      const clauses = n.caseBlock.clauses.map((c) => ts.isCaseClause(c) ? f.updateCaseClause(c, call('t', call('bin', str('==='), v, go(c.expression))), c.statements.map(go)) : f.updateDefaultClause(c, c.statements.map(go)));
      return f.createBlock([f.createVariableStatement(undefined, f.createVariableDeclarationList([f.createVariableDeclaration(v, undefined, undefined, go(n.expression))], ts.NodeFlags.Const)),
        f.createSwitchStatement(f.createTrue(), f.createCaseBlock(clauses))], true);
    }
    if (ts.isElementAccessExpression(n) && !assigned(n)) return call('idx', go(n.expression), go(n.argumentExpression));
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && !n.expression.questionDotToken && !n.questionDotToken
      && ['includes', 'indexOf', 'filter', 'find', 'findIndex', 'findLast', 'some', 'every'].includes(n.expression.name.text)) return call('m', go(n.expression.expression), str(n.expression.name.text), f.createArrayLiteralExpression(n.arguments.map(go)));
    return ts.visitEachChild(n, visit, ctx);
  }
  return ts.visitNode(file, (x) => ts.visitEachChild(x, visit, ctx));
};

/** Loads the client under `root`; `instr` gives the globals of the instrumented version, or null for the plain one. */
export function load(root, env, instr) {
  const cache = new Map(), files = {};
  function find(p) {
    for (const c of [p + '.ts', path.join(p, 'index.ts'), p]) if (fs.existsSync(c) && fs.statSync(c).isFile()) return c;
    throw new Error('no module ' + p);
  }
  function req(from, name) {
    if (!name.startsWith('.')) { if (env[name]) return env[name]; throw new Error(`module ${name} is not modelled`); }
    return mod(find(path.resolve(path.dirname(from), name)));
  }
  function mod(p) {
    if (cache.has(p)) return cache.get(p).exports;
    const src = fs.readFileSync(p, 'utf8');
    files[path.relative(root, p)] = createHash('sha256').update(src).digest('hex').slice(0, 16);
    const out = ts.transpileModule(src, {
      fileName: p, reportDiagnostics: true,
      compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2020, esModuleInterop: true },
      transformers: instr ? { before: [instrument] } : undefined,
    });
    const errs = (out.diagnostics ?? []).filter((d) => d.category === ts.DiagnosticCategory.Error);
    if (errs.length) throw new Error(`${p}: ${ts.flattenDiagnosticMessageText(errs[0].messageText, ' ')}`);
    const m = { exports: {} };
    cache.set(p, m);
    const g = instr ?? {};
    const fn = vm.runInThisContext(`(function (exports, require, module, ${Object.keys(g).join(', ')}) {${out.outputText}\n})`, { filename: p });
    fn(m.exports, (n) => req(p, n), m, ...Object.values(g));
    return m.exports;
  }
  const exports = mod(find(path.join(root, 'index')));
  return { exports, files };
}
