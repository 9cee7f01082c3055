// ast.cjs FILE...: prints {file: tree} of TypeScript sources with the types erased.
const ts = require('/opt/veriftools/node/node_modules/typescript');
const fs = require('fs');
const K = ts.SyntaxKind;
let src;
const line = n => src.getLineAndCharacterOfPosition(n.getStart(src)).line + 1;
const opname = { };
function N(n, t, o) { return Object.assign({ t, l: line(n) }, o); }
const bad = n => { throw new Error(`${src.fileName}:${line(n)}: unsupported syntax ${K[n.kind]}`); };
const mods = n => (ts.canHaveModifiers(n) && ts.getModifiers(n) || []).map(m => K[m.kind]);
const has = (n, m) => mods(n).includes(m);
const L = xs => xs.map(X).filter(x => x !== null);
function fn(n, extra) {
  const body = n.body === undefined ? null : ts.isBlock(n.body) ? X(n.body) : X(n.body);
  return N(n, 'fn', Object.assign({
    name: n.name ? propName(n.name) : null, params: n.parameters.filter(p => !(ts.isIdentifier(p.name) && p.name.text === 'this')).map(p => ({ p: pat(p.name), d: p.initializer ? X(p.initializer) : null, rest: !!p.dotDotDotToken })),
    body, expr: n.body && !ts.isBlock(n.body), arrow: ts.isArrowFunction(n), async: has(n, 'AsyncKeyword'), gen: !!n.asteriskToken,
  }, extra || {}));
}
function propName(n) {
  if (ts.isIdentifier(n) || ts.isPrivateIdentifier(n)) return n.text;
  if (ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) return n.text;
  if (ts.isNumericLiteral(n)) return String(Number(n.text));
  if (ts.isComputedPropertyName(n)) return X(n.expression);
  bad(n);
}
function pat(n) {
  if (ts.isIdentifier(n)) return N(n, 'id', { n: n.text });
  if (ts.isArrayBindingPattern(n)) return N(n, 'apat', { e: n.elements.map(e => ts.isOmittedExpression(e) ? null : { p: pat(e.name), d: e.initializer ? X(e.initializer) : null, rest: !!e.dotDotDotToken }) });
  if (ts.isObjectBindingPattern(n)) return N(n, 'opat', { e: n.elements.map(e => ({ k: e.propertyName ? propName(e.propertyName) : e.name.text, p: pat(e.name), d: e.initializer ? X(e.initializer) : null, rest: !!e.dotDotDotToken })) });
  return X(n);
}
function X(n) {
  switch (n.kind) {
    // types: nothing at run time
    case K.InterfaceDeclaration: case K.TypeAliasDeclaration: case K.EmptyStatement: return null;
    case K.AsExpression: case K.SatisfiesExpression: case K.NonNullExpression: case K.ParenthesizedExpression: case K.TypeAssertionExpression: case K.ExpressionWithTypeArguments: return X(n.expression);
    case K.SourceFile: return N(n, 'module', { b: L(n.statements) });
    case K.ImportDeclaration: {
      const c = n.importClause;
      if (c && c.isTypeOnly) return null;
      const names = [];
      if (c && c.name) names.push(['default', c.name.text]);
      if (c && c.namedBindings) {
        if (ts.isNamespaceImport(c.namedBindings)) names.push(['*', c.namedBindings.name.text]);
        else for (const e of c.namedBindings.elements) if (!e.isTypeOnly) names.push([(e.propertyName || e.name).text, e.name.text]);
      }
      return N(n, 'import', { from: n.moduleSpecifier.text, names });
    }
    case K.ExportDeclaration: {
      if (n.isTypeOnly) return null;
      const from = n.moduleSpecifier ? n.moduleSpecifier.text : null;
      if (!n.exportClause) return N(n, 'exportall', { from });
      if (ts.isNamespaceExport(n.exportClause)) return N(n, 'exportns', { from, as: n.exportClause.name.text });
      return N(n, 'export', { from, names: n.exportClause.elements.filter(e => !e.isTypeOnly).map(e => [(e.propertyName || e.name).text, e.name.text]) });
    }
    case K.ExportAssignment: return N(n, 'exportdef', { v: X(n.expression) });
    case K.VariableStatement: return has(n, 'DeclareKeyword') ? null : Object.assign(X(n.declarationList), { exp: has(n, 'ExportKeyword') });
    case K.VariableDeclarationList: return N(n, 'var', { c: !!(n.flags & ts.NodeFlags.Const), fs: !(n.flags & ts.NodeFlags.BlockScoped), d: n.declarations.map(d => ({ p: pat(d.name), i: d.initializer ? X(d.initializer) : null })) });
    case K.FunctionDeclaration: return n.body ? fn(n, { decl: true, exp: has(n, 'ExportKeyword'), def: has(n, 'DefaultKeyword') }) : null;
    case K.FunctionExpression: case K.ArrowFunction: return fn(n);
    case K.EnumDeclaration: return N(n, 'enum', { n: n.name.text, exp: has(n, 'ExportKeyword'), m: n.members.map(m => [propName(m.name), m.initializer ? X(m.initializer) : null]) });
    case K.ClassDeclaration: case K.ClassExpression: {
      let ext = null;
      for (const h of n.heritageClauses || []) if (h.token === K.ExtendsKeyword) ext = X(h.types[0].expression);
      const m = [];
      for (const e of n.members) {
        if (ts.isConstructorDeclaration(e) && e.body) m.push(['ctor', fn(e, { props: e.parameters.filter(p => (ts.getModifiers(p) || []).length).map(p => p.name.text) }), false]);
        else if (ts.isMethodDeclaration(e) && e.body) m.push(['method', fn(e), has(e, 'StaticKeyword')]);
        else if (ts.isPropertyDeclaration(e)) m.push(['field', { k: propName(e.name), v: e.initializer ? X(e.initializer) : null }, has(e, 'StaticKeyword')]);
        else if (ts.isGetAccessor(e)) m.push(['get', fn(e), has(e, 'StaticKeyword')]);
        else if (ts.isSetAccessor(e)) m.push(['set', fn(e), has(e, 'StaticKeyword')]);
        else if (ts.isClassStaticBlockDeclaration(e)) m.push(['block', X(e.body), true]);
        else if (ts.isSemicolonClassElement(e) || ts.isConstructorDeclaration(e) || ts.isMethodDeclaration(e)) continue;
        else bad(e);
      }
      return N(n, 'class', { n: n.name ? n.name.text : null, ext, m, decl: n.kind === K.ClassDeclaration, exp: has(n, 'ExportKeyword') });
    }
    case K.Block: return N(n, 'block', { b: L(n.statements) });
    case K.ExpressionStatement: return N(n, 'es', { e: X(n.expression) });
    case K.IfStatement: return N(n, 'if', { c: X(n.expression), a: X(n.thenStatement), b: n.elseStatement ? X(n.elseStatement) : null });
    case K.ForStatement: return N(n, 'for', { i: n.initializer ? X(n.initializer) : null, c: n.condition ? X(n.condition) : null, u: n.incrementor ? X(n.incrementor) : null, b: X(n.statement) });
    case K.ForOfStatement: return N(n, 'forof', { aw: !!n.awaitModifier, v: ts.isVariableDeclarationList(n.initializer) ? pat(n.initializer.declarations[0].name) : X(n.initializer), decl: ts.isVariableDeclarationList(n.initializer) && !!(n.initializer.flags & ts.NodeFlags.BlockScoped), fs: ts.isVariableDeclarationList(n.initializer) && !(n.initializer.flags & ts.NodeFlags.BlockScoped), e: X(n.expression), b: X(n.statement) });
    case K.ForInStatement: return N(n, 'forin', { v: ts.isVariableDeclarationList(n.initializer) ? pat(n.initializer.declarations[0].name) : X(n.initializer), decl: ts.isVariableDeclarationList(n.initializer) && !!(n.initializer.flags & ts.NodeFlags.BlockScoped), fs: ts.isVariableDeclarationList(n.initializer) && !(n.initializer.flags & ts.NodeFlags.BlockScoped), e: X(n.expression), b: X(n.statement) });
    case K.WhileStatement: return N(n, 'while', { c: X(n.expression), b: X(n.statement) });
    case K.DoStatement: return N(n, 'do', { c: X(n.expression), b: X(n.statement) });
    case K.ReturnStatement: return N(n, 'return', { e: n.expression ? X(n.expression) : null });
    case K.ThrowStatement: return N(n, 'throw', { e: X(n.expression) });
    case K.BreakStatement: return N(n, 'break', { lb: n.label ? n.label.text : null });
    case K.ContinueStatement: return N(n, 'continue', { lb: n.label ? n.label.text : null });
    case K.LabeledStatement: return N(n, 'label', { n: n.label.text, b: X(n.statement) });
    case K.SwitchStatement: return N(n, 'switch', { e: X(n.expression), c: n.caseBlock.clauses.map(c => [c.expression ? X(c.expression) : null, L(c.statements)]) });
    case K.TryStatement: return N(n, 'try', { b: X(n.tryBlock), p: n.catchClause && n.catchClause.variableDeclaration ? pat(n.catchClause.variableDeclaration.name) : null, c: n.catchClause ? X(n.catchClause.block) : null, f: n.finallyBlock ? X(n.finallyBlock) : null });
    // expressions
    case K.Identifier: return N(n, 'id', { n: n.text });
    case K.NumericLiteral: return N(n, 'num', { v: Number(n.text) });
    case K.BigIntLiteral: return N(n, 'big', { v: BigInt(n.text.slice(0, -1)).toString() });
    case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return N(n, 'str', { v: n.text });
    case K.TrueKeyword: return N(n, 'lit', { v: true });
    case K.FalseKeyword: return N(n, 'lit', { v: false });
    case K.NullKeyword: return N(n, 'lit', { v: null });
    case K.ThisKeyword: return N(n, 'this', {});
    case K.SuperKeyword: return N(n, 'super', {});
    case K.RegularExpressionLiteral: return N(n, 'regex', { v: n.text });
    case K.TaggedTemplateExpression: { const t = n.template; const q = t.kind === K.NoSubstitutionTemplateLiteral ? [t.text] : [t.head.text, ...t.templateSpans.map(s => s.literal.text)]; return N(n, 'call', { f: X(n.tag), a: [N(t, 'arr', { e: q.map(v => N(t, 'str', { v })) }), ...(t.templateSpans || []).map(s => X(s.expression))], opt: false, chain: false }); }
    case K.TemplateExpression: return N(n, 'tpl', { q: [n.head.text, ...n.templateSpans.map(s => s.literal.text)], e: n.templateSpans.map(s => X(s.expression)) });
    case K.ArrayLiteralExpression: return N(n, 'arr', { e: n.elements.map(e => ts.isOmittedExpression(e) ? null : X(e)) });
    case K.SpreadElement: return N(n, 'spread', { e: X(n.expression) });
    case K.ObjectLiteralExpression: return N(n, 'obj', { p: n.properties.map(p => {
      if (ts.isPropertyAssignment(p)) return ['kv', propName(p.name), X(p.initializer)];
      if (ts.isShorthandPropertyAssignment(p)) return ['kv', p.name.text, N(p, 'id', { n: p.name.text })];
      if (ts.isSpreadAssignment(p)) return ['spread', null, X(p.expression)];
      if (ts.isMethodDeclaration(p)) return ['kv', propName(p.name), fn(p)];
      if (ts.isGetAccessor(p)) return ['get', propName(p.name), fn(p)];
      if (ts.isSetAccessor(p)) return ['set', propName(p.name), fn(p)];
      bad(p);
    }) });
    case K.PropertyAccessExpression: return N(n, 'mem', { o: X(n.expression), k: n.name.text, opt: !!n.questionDotToken, chain: !!(n.flags & ts.NodeFlags.OptionalChain) });
    case K.ElementAccessExpression: return N(n, 'idx', { o: X(n.expression), k: X(n.argumentExpression), opt: !!n.questionDotToken, chain: !!(n.flags & ts.NodeFlags.OptionalChain) });
    case K.CallExpression: return N(n, 'call', { f: n.expression.kind === K.ImportKeyword ? bad(n) : X(n.expression), a: n.arguments.map(X), opt: !!n.questionDotToken, chain: !!(n.flags & ts.NodeFlags.OptionalChain) });
    case K.NewExpression: return N(n, 'new', { f: X(n.expression), a: (n.arguments || []).map(X) });
    case K.YieldExpression: return N(n, 'yield', { star: !!n.asteriskToken, e: n.expression ? X(n.expression) : null });
    case K.AwaitExpression: return N(n, 'await', { e: X(n.expression) });
    case K.PrefixUnaryExpression: return N(n, 'un', { o: ts.tokenToString(n.operator), e: X(n.operand) });
    case K.PostfixUnaryExpression: return N(n, 'post', { o: ts.tokenToString(n.operator), e: X(n.operand) });
    case K.TypeOfExpression: return N(n, 'un', { o: 'typeof', e: X(n.expression) });
    case K.VoidExpression: return N(n, 'un', { o: 'void', e: X(n.expression) });
    case K.DeleteExpression: return N(n, 'delete', { e: X(n.expression) });
    case K.BinaryExpression: {
      const o = ts.tokenToString(n.operatorToken.kind);
      const asg = n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment;
      return N(n, asg ? 'asg' : 'bin', { o, a: asg && o === '=' ? target(n.left) : X(n.left), b: X(n.right) });
    }
    case K.ConditionalExpression: return N(n, 'cond', { c: X(n.condition), a: X(n.whenTrue), b: X(n.whenFalse) });
    case K.MetaProperty: return n.keywordToken === K.ImportKeyword ? N(n, 'id', { n: 'import.meta' }) : N(n, 'meta', {});
    case K.CommaListExpression: return N(n, 'seq', { e: n.elements.map(X) });
    case K.ModuleDeclaration: return has(n, 'DeclareKeyword') ? null : bad(n);
  }
  bad(n);
}
// assignment targets written as literals are patterns
function target(n) {
  while (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n)) n = n.expression;
  const wd = e => ts.isBinaryExpression(e) && e.operatorToken.kind === K.EqualsToken ? { p: target(e.left), d: X(e.right) } : { p: target(e), d: null };
  if (ts.isArrayLiteralExpression(n)) return N(n, 'apat', { e: n.elements.map(e => ts.isOmittedExpression(e) ? null : ts.isSpreadElement(e) ? { p: target(e.expression), d: null, rest: true } : wd(e)) });
  if (ts.isObjectLiteralExpression(n)) return N(n, 'opat', { e: n.properties.map(p => ts.isSpreadAssignment(p) ? { k: null, p: target(p.expression), d: null, rest: true } : ts.isShorthandPropertyAssignment(p) ? { k: p.name.text, p: N(p, 'id', { n: p.name.text }), d: p.objectAssignmentInitializer ? X(p.objectAssignmentInitializer) : null } : Object.assign({ k: propName(p.name) }, wd(p.initializer))) });
  return X(n);
}
const out = {};
for (const f of process.argv.slice(2)) {
  const text = fs.readFileSync(f, 'utf8');
  src = ts.createSourceFile(f, text, ts.ScriptTarget.ES2022, true);
  if (src.parseDiagnostics.length) throw new Error(`${f}: ${ts.flattenDiagnosticMessageText(src.parseDiagnostics[0].messageText, ' ')}`);
  out[f] = X(src);
}
process.stdout.write(JSON.stringify(out));
