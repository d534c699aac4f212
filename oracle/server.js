// Independent oracle: reads one JSON request per line, answers with one JSON line.
//   {s: source, m: is module, ast: tree fajt built, optional}
//   -> {ok: true, diff: null | "where the trees differ"}, {ok: false, msg, v8, pos} or {ok: null} (no verdict)
// A verdict needs both acorn and the parser of node's own engine.
'use strict';
const acorn = require(__dirname + '/acorn.js');
const readline = require('readline');
const vm = require('vm');

const BIN = {
  Plus: '+', Minus: '-', Multiplication: '*', Division: '/', Modulus: '%', Exponent: '**',
  Equal: '==', NotEqual: '!=', StrictEqual: '===', StrictNotEqual: '!==', LessThan: '<', MoreThan: '>',
  LessThanEquals: '<=', MoreThanEquals: '>=', InstanceOf: 'instanceof', In: 'in', ShiftLeft: '<<',
  ShiftRight: '>>', ShiftRightUnsigned: '>>>', BitwiseAnd: '&', BitwiseOR: '|', BitwiseXOR: '^',
};
const LOGICAL = { Or: '||', And: '&&', Coalesce: '??' };
const ASSIGN = {
  Assign: '=', Add: '+=', Sub: '-=', Multiply: '*=', Power: '**=', Divide: '/=', Modulus: '%=', LeftShift: '<<=',
  RightShift: '>>=', UnsignedRightShift: '>>>=', BitwiseAnd: '&=', BitwiseXOr: '^=', BitwiseOr: '|=',
};
const UNARY = { Not: '!', Minus: '-', Plus: '+', BitwiseNot: '~', Typeof: 'typeof', Void: 'void', Delete: 'delete' };

let source = '';
let ascii = true;

function only(o) {
  const k = Object.keys(o);
  if (k.length !== 1) throw new Error('not a variant: ' + JSON.stringify(o).slice(0, 200));
  return k[0];
}
function node(type, span, fields) {
  const n = { type, ...fields };
  if (span && ascii) { const [s, e] = span.split(':'); n.start = +s; n.end = +e; }
  return n;
}
const ident = (i) => node('Identifier', i.span, { name: i.name });
const opt = (v, f) => (v === null || v === undefined ? null : f(v));
const list = (v, f) => v.map((x) => f(x));

function str(l, span) {
  const f = {};
  if (!l.value.includes('\\') ) f.value = l.value;
  return node('Literal', span, { kind: 'string', ...f });
}

function literal(l, span) {
  if (l === 'Null') return node('Literal', span, { value: null, raw: 'null' });
  const k = only(l), v = l[k];
  switch (k) {
    case 'Boolean': return node('Literal', span, { value: v });
    case 'Number': return node('Literal', span, { raw: v.raw });
    case 'String': return str(v, span);
    case 'Regexp': return node('Literal', span, { raw: v });
    case 'Template': return template(v, span);
    case 'Array': return node('ArrayExpression', span, {
      elements: v.elements.map((e) => e === 'Elision' ? null
        : only(e) === 'Spread' ? node('SpreadElement', null, { argument: expr(e.Spread) }) : expr(e.Expr)),
    });
    case 'Object': return node('ObjectExpression', span, { properties: v.props.map(prop) });
  }
  throw new Error('literal ' + k);
}
function template(t, span) {
  // Empty chunks are left out of the tree.
  const expressions = t.parts.filter((p) => p.Expr !== undefined).map((p) => expr(p.Expr));
  const chunks = t.parts.filter((p) => p.String !== undefined).map((p) => p.String);
  return node('TemplateLiteral', span, { expressions, chunks });
}
function propName(n) {
  const k = only(n), v = n[k];
  switch (k) {
    case 'Ident': return [ident(v), false];
    case 'String': return [str(v, null), false];
    case 'Number': return [node('Literal', null, { raw: v.raw }), false];
    case 'Computed': return [expr(v), true];
  }
  throw new Error('name ' + k);
}
function prop(p) {
  const k = only(p), v = p[k];
  switch (k) {
    case 'IdentRef': return node('Property', v.span, { shorthand: true, method: false, kind: 'init', value: ident(v) });
    case 'Spread': return node('SpreadElement', null, { argument: expr(v) });
    case 'Named': {
      const [key, computed] = propName(v.name);
      return node('Property', v.span, { shorthand: false, method: false, kind: 'init', computed, key, value: expr(v.value) });
    }
    case 'Method': {
      const [key, computed] = propName(v.name);
      const kind = { Get: 'get', Set: 'set', Method: 'init' }[v.kind];
      return node('Property', v.span, { shorthand: false, method: kind === 'init', kind, computed, key, value: methodFunction(v) });
    }
  }
  throw new Error('prop ' + k);
}
let inGenerator = false;
function within(generator, f) {
  const saved = inGenerator;
  inGenerator = generator;
  const r = f();
  inGenerator = saved;
  return r;
}
function methodFunction(v) {
  // `generator` of plain methods inside of generators is a known finding (K3).
  const g = inGenerator && !v.asynchronous ? {} : { generator: v.generator };
  return within(v.generator, () => node('FunctionExpression', null, { async: v.asynchronous, ...g, params: params(v.parameters), body: body(v.body) }));
}
function params(p) {
  const out = p.bindings.map(bindingElement);
  if (p.rest) out.push(node('RestElement', null, { argument: binding(p.rest) }));
  return out;
}
function bindingElement(b) {
  if (b.initializer) return node('AssignmentPattern', b.span, { left: binding(b.pattern), right: expr(b.initializer) });
  return binding(b.pattern);
}
function binding(b) {
  const k = only(b), v = b[k];
  if (k === 'Ident') return ident(v);
  if (k === 'Array') {
    const elements = v.elements.map((e) => opt(e, bindingElement));
    if (v.rest) elements.push(node('RestElement', null, { argument: binding(v.rest) }));
    return node('ArrayPattern', v.span, { elements });
  }
  const properties = v.props.map((p) => {
    const k = only(p), x = p[k];
    if (k === 'Single') {
      const value = x.initializer ? node('AssignmentPattern', x.span, { left: ident(x.ident), right: expr(x.initializer) }) : ident(x.ident);
      return node('Property', x.span, { shorthand: true, value });
    }
    const [key, computed] = propName(x.property);
    return node('Property', x.span, { shorthand: false, computed, key, value: bindingElement(x.binding) });
  });
  if (v.rest) properties.push(node('RestElement', null, { argument: binding(v.rest) }));
  return node('ObjectPattern', v.span, { properties });
}
function target(t) {
  const k = only(t);
  return k === 'Expr' ? expr(t.Expr) : assignPattern(t.AssignmentPattern);
}
function assignElement(e) {
  if (e.initializer) return node('AssignmentPattern', e.span, { left: target(e.target), right: expr(e.initializer) });
  return target(e.target);
}
function assignPattern(p) {
  const k = only(p), v = p[k];
  if (k === 'Array') {
    // How holes are counted is a known finding (K7).
    const elements = v.elements.filter((e) => e !== null).map(assignElement);
    if (v.rest) elements.push(node('RestElement', null, { argument: target(v.rest) }));
    return node('ArrayPattern', v.span, { dense: elements });
  }
  const properties = v.props.map((p) => {
    const k = only(p), x = p[k];
    if (k === 'Single') {
      const value = x.initializer ? node('AssignmentPattern', x.span, { left: ident(x.ident), right: expr(x.initializer) }) : ident(x.ident);
      return node('Property', x.span, { shorthand: true, value });
    }
    const [key, computed] = propName(x.name);
    const value = x.initializer ? node('AssignmentPattern', null, { left: target(x.value), right: expr(x.initializer) }) : target(x.value);
    return node('Property', x.span, { shorthand: false, computed, key, value });
  });
  if (v.rest) properties.push(node('RestElement', null, { argument: target(v.rest) }));
  return node('ObjectPattern', v.span, { properties });
}
function args(a) {
  return a.map((x) => only(x) === 'Spread' ? node('SpreadElement', null, { argument: expr(x.Spread) }) : expr(x.Expr));
}
function member(type, v, object) {
  const k = only(v.property);
  const fields = { object, computed: k === 'Expr', property: k === 'Expr' ? expr(v.property.Expr) : ident(v.property.Ident) };
  if ('optional' in v) fields.optional = v.optional;
  return node(type, v.span, fields);
}
function expr(e) {
  const k = only(e), v = e[k];
  switch (k) {
    case 'IdentRef': return ident(v);
    case 'This': return node('ThisExpression', v.span, {});
    case 'Literal': return literal(v.literal, v.span);
    case 'Parenthesized': return node('ParenthesizedExpression', v.span, { expression: expr(v.expression) });
    case 'Sequence': return node('SequenceExpression', v.span, { expressions: list(v.expr, expr) });
    case 'Conditional': return node('ConditionalExpression', v.span, { test: expr(v.condition), consequent: expr(v.consequent), alternate: expr(v.alternate) });
    case 'Assignment': return node('AssignmentExpression', v.span, { operator: ASSIGN[v.operator], left: target(v.left), right: expr(v.right) });
    case 'Logical': return node('LogicalExpression', v.span, { operator: LOGICAL[v.operator], left: expr(v.left), right: expr(v.right) });
    case 'Binary': return node('BinaryExpression', v.span, { operator: BIN[v.operator], left: expr(v.left), right: expr(v.right) });
    case 'Unary': return node('UnaryExpression', v.span, { operator: UNARY[v.operator], argument: expr(v.argument) });
    case 'Update': return node('UpdateExpression', v.span, { operator: v.operator === 'Decrease' ? '--' : '++', prefix: v.prefix, argument: expr(v.argument) });
    case 'Await': return node('AwaitExpression', v.span, { argument: expr(v.argument) });
    case 'Yield': return node('YieldExpression', v.span, { argument: opt(v.argument, expr), delegate: v.delegate });
    case 'MetaProperty': return node('MetaProperty', v.span, { meta: ident(v.meta), property: ident(v.property) });
    case 'Member': {
      const ok = only(v.object);
      return member('MemberExpression', v, ok === 'Super' ? node('Super', v.object.Super.span, {}) : expr(v.object.Expr));
    }
    case 'OptionalMember': return member('MemberExpression', v, expr(v.object));
    case 'OptionalCall': return node('CallExpression', v.span, { callee: expr(v.callee), arguments: args(v.arguments), optional: v.optional });
    case 'Call': {
      if (v.callee === 'Import') return node('ImportExpression', v.span, { source: args(v.arguments)[0] });
      const callee = v.callee === 'Super' ? node('Super', null, {}) : expr(v.callee.Expr);
      return node('CallExpression', v.span, { callee, arguments: args(v.arguments) });
    }
    case 'New': return node('NewExpression', v.span, { callee: expr(v.callee), arguments: args(v.arguments) });
    case 'TaggedTemplate': return node('TaggedTemplateExpression', v.span, { tag: expr(v.callee), quasi: template(v.template, null) });
    case 'Function': return fn('FunctionExpression', v);
    case 'ArrowFunction': {
      const bk = only(v.body);
      return node('ArrowFunctionExpression', v.span, {
        async: v.asynchronous, params: params(v.parameters), expression: bk === 'Expr',
        body: bk === 'Expr' ? expr(v.body.Expr) : body(v.body.Body),
      });
    }
    case 'Class': return cls('ClassExpression', v);
  }
  throw new Error('expr ' + k);
}
function fn(type, v) {
  const id = v.identifier && v.identifier.name !== '' ? ident(v.identifier) : null;
  return within(v.generator, () => node(type, v.span, { async: v.asynchronous, generator: v.generator, id, params: params(v.parameters), body: body(v.body) }));
}
function cls(type, v) {
  const id = v.identifier && v.identifier.name !== '' ? ident(v.identifier) : null;
  return node(type, v.span, {
    id, superClass: opt(v.super_class, expr),
    body: {
      type: 'ClassBody',
      body: v.body.map((el) => {
        const m = el[only(el)];
        const [key, computed] = propName(m.name);
        return node('MethodDefinition', m.is_static ? null : m.span, { static: m.is_static, computed, key, accessor: { Get: 'get', Set: 'set', Method: 'method' }[m.kind], value: methodFunction(m) });
      }),
    },
  });
}
function directive(d) {
  return { type: 'ExpressionStatement', directive: d.value };
}
function body(b) {
  return node('BlockStatement', b.span, { body: [...b.directives.map(directive), ...b.statements.map(stmt)] });
}
function variable(v, extra) {
  return node('VariableDeclaration', v.span, { kind: v.kind.toLowerCase(), declarations: v.declarations.map((d) => node('VariableDeclarator', d.span, { id: binding(d.pattern), init: opt(d.initializer, expr) })), ...extra });
}
function forLeft(l) {
  const k = only(l), v = l[k];
  if (k === 'Declaration') return node('VariableDeclaration', v.span, { kind: v.kind.toLowerCase(), declarations: [node('VariableDeclarator', null, { id: binding(v.binding), init: null })] });
  if (k === 'AssignmentPattern') return assignPattern(v);
  return expr(v);
}
function block(b) {
  return node('BlockStatement', b.span, { body: list(b.statements, stmt) });
}
function named(v) {
  return v.named_exports.map((e) => {
    const local = ident(e.alias_of || e.name), exported = ident(e.name);
    return node('ExportSpecifier', e.span, { local, exported });
  });
}
function stmt(s) {
  const k = only(s), v = s[k];
  switch (k) {
    case 'Expr': return node('ExpressionStatement', v.span, { expression: expr(v.expr) });
    case 'Empty': return node('EmptyStatement', v.span, {});
    case 'Block': return block(v);
    case 'Variable': return variable(v);
    case 'If': return node('IfStatement', v.span, { test: expr(v.condition), consequent: stmt(v.consequent), alternate: opt(v.alternate, stmt) });
    case 'While': return node('WhileStatement', v.span, { test: expr(v.test), body: stmt(v.body) });
    case 'DoWhile': return node('DoWhileStatement', v.span, { test: expr(v.test), body: stmt(v.body) });
    case 'For': return node('ForStatement', v.span, {
      init: opt(v.init, (i) => only(i) === 'Expr' ? expr(i.Expr) : variable(i.Declaration)),
      test: opt(v.test, expr), update: opt(v.update, expr), body: stmt(v.body),
    });
    case 'ForIn': return node('ForInStatement', v.span, { left: forLeft(v.left), right: expr(v.right), body: stmt(v.body) });
    case 'ForOf': return node('ForOfStatement', v.span, { left: forLeft(v.left), right: expr(v.right), body: stmt(v.body), await: v.asynchronous });
    case 'Switch': return node('SwitchStatement', v.span, {
      discriminant: expr(v.discriminant),
      cases: v.cases.map((c) => node('SwitchCase', c.span, { test: opt(c.test, expr), consequent: list(c.consequent, stmt) })),
    });
    case 'Throw': return node('ThrowStatement', v.span, { argument: expr(v.argument) });
    case 'Try': return node('TryStatement', v.span, {
      block: block(v.block),
      handler: opt(v.handler, (h) => node('CatchClause', h.span, { param: opt(h.parameter, binding), body: block(h.body) })),
      finalizer: opt(v.finalizer, block),
    });
    case 'Labeled': return node('LabeledStatement', v.span, { label: ident(v.label), body: stmt(v.body) });
    case 'Debugger': return node('DebuggerStatement', v.span, {});
    case 'With': return node('WithStatement', v.span, { object: expr(v.object), body: stmt(v.body) });
    case 'Return': return node('ReturnStatement', v.span, { argument: opt(v.argument, expr) });
    case 'Break': return node('BreakStatement', v.span, { label: opt(v.label, ident) });
    case 'Continue': return node('ContinueStatement', v.span, { label: opt(v.label, ident) });
    case 'FunctionDecl': return fn('FunctionDeclaration', v);
    case 'ClassDecl': return cls('ClassDeclaration', v);
    case 'ImportDecl': {
      const specifiers = [];
      if (v.default_binding) specifiers.push(node('ImportDefaultSpecifier', null, { local: ident(v.default_binding) }));
      if (v.namespace_binding) specifiers.push(node('ImportNamespaceSpecifier', null, { local: ident(v.namespace_binding) }));
      for (const n of v.named_imports || []) specifiers.push(node('ImportSpecifier', n.span, { imported: ident(n.name), local: ident(n.alias || n.name) }));
      return node('ImportDeclaration', v.span, { specifiers, source: str(v.from, null) });
    }
    case 'ExportDecl': {
      const x = only(v), d = v[x];
      switch (x) {
        case 'Named': return node('ExportNamedDeclaration', d.span, { declaration: null, specifiers: named(d), source: opt(d.from, (f) => str(f, null)) });
        case 'Namespace': return node('ExportAllDeclaration', d.span, { exported: opt(d.alias, ident), source: str(d.from, null) });
        case 'DefaultExpr': return node('ExportDefaultDeclaration', d.span, { declaration: expr(d.expr) });
        case 'DefaultDecl': return node('ExportDefaultDeclaration', d.span, { declaration: stmt(d.decl) });
        case 'Decl': return node('ExportNamedDeclaration', d.span, { declaration: stmt(d.decl), specifiers: [] });
      }
    }
  }
  throw new Error('stmt ' + k);
}
function program(p) {
  const v = p[only(p)];
  return { type: 'Program', sourceType: only(p).toLowerCase(), body: [...v.directives.map(directive), ...v.body.map(stmt)] };
}

// The parts of acorn's tree which differ only in form.
function view(n) {
  if (n.type === 'ChainExpression') return view(n.expression);
  // `**` is left associative in fajt, a known finding (K2).
  if (n.type === 'BinaryExpression' && n.operator === '**' && n.right.operator === '**') {
    const parts = [n.left];
    let r = n.right;
    while (r.type === 'BinaryExpression' && r.operator === '**') { parts.push(r.left); r = r.right; }
    parts.push(r);
    return parts.reduce((left, right) => ({ type: 'BinaryExpression', operator: '**', left, right, start: n.start, end: right.end }));
  }
  return n;
}

// What of the tree is a known finding, or a feature fajt does not have.
function features(tree) {
  const found = new Set();
  const startsWithLiteral = (n) => {
    if (n.type === 'ChainExpression') return startsWithLiteral(n.expression);
    if (n.type === 'MemberExpression' || n.type === 'CallExpression' || n.type === 'TaggedTemplateExpression') return /^(Array|Object)Expression$/.test((n.object || n.callee || n.tag).type) || startsWithLiteral(n.object || n.callee || n.tag);
    return false;
  };
  // In a generator; in a plain method of one.
  let generator = false, plain = false;
  const walk = (n, parent) => {
    if (Array.isArray(n)) { for (const x of n) walk(x, parent); return; }
    if (n && /^Function(Expression|Declaration)$/.test(n.type)) {
      const saved = [generator, plain];
      const method = parent && (parent.type === 'MethodDefinition' || parent.type === 'Property' && (parent.method || parent.kind !== 'init')) && parent.value === n;
      plain = method && !n.generator && (generator || plain);
      generator = n.generator;
      inner(n, parent);
      [generator, plain] = saved;
      return;
    }
    inner(n, parent);
  };
  const inner = (n, parent) => {
    if (!n || typeof n !== 'object') return;
    if (n instanceof RegExp) return;
    if (n.type) {
      if (plain && n.type === 'Identifier' && n.name === 'yield') found.add('K3');
      const target = (t) => {
        if (!t) return;
        if (t.type === 'AssignmentPattern') t = t.left;
        if (t.type === 'RestElement') t = t.argument;
        if (startsWithLiteral(t)) found.add('K9');
      };
      if (n.type === 'ArrayPattern') n.elements.forEach(target);
      if (n.type === 'ObjectPattern') n.properties.forEach((p) => target(p.type === 'Property' ? p.value : p));
      if (n.type === 'ForOfStatement' || n.type === 'ForInStatement') {
        target(n.left);
        if (n.left.type === 'VariableDeclaration' && n.left.declarations[0].init) found.add('annexB');
      }
      if (n.type === 'LabeledStatement' || n.type === 'IfStatement') {
        for (const b of [n.body, n.consequent, n.alternate]) if (b && b.type === 'FunctionDeclaration') found.add('annexB');
      }
      if ((n.type === 'MethodDefinition' || n.type === 'Property') && n.computed && /super/.test(JSON.stringify(n.key).toLowerCase())) found.add('K10');
      if (n.type === 'Literal' && /^0[0-9]/.test(n.raw || '')) found.add('octal');
      if (n.type === 'Literal' && n.bigint) found.add('bigint');
      if (n.type === 'AssignmentExpression' && /^(&&|\|\||\?\?)=$/.test(n.operator)) found.add('logical');
    }
    for (const k of Object.keys(n)) if (k !== 'type' && k !== 'start' && k !== 'end') walk(n[k], n);
  };
  walk(tree, null);
  return [...found].join(' ');
}

function diff(want, got, path) {
  if (Array.isArray(want)) {
    if (!Array.isArray(got)) return `${path}: oracle has a list, got ${JSON.stringify(got).slice(0, 120)}`;
    if (want.length !== got.length) return `${path}: oracle has ${want.length} elements, got ${got.length}`;
    for (let i = 0; i < want.length; i++) { const d = diff(want[i], got[i], `${path}/${i}`); if (d) return d; }
    return null;
  }
  if (want && got && typeof want === 'object' && typeof got === 'object' && got.type) {
    want = view(want);
    if (want.type !== got.type) return `${path}: oracle has ${want.type}, got ${got.type}`;
    for (const k of Object.keys(got)) {
      let w = want[k];
      if (k === 'type') continue;
      if (k === 'kind' && got.type === 'Literal') { w = typeof want.value; }
      if (k === 'value' && got.type === 'Literal' && want.raw.includes('\\')) continue;
      if (k === 'directive' && (want.directive || '').includes('\\')) continue;
      if (k === 'dense') w = want.elements.filter((e) => e !== null);
      if (k === 'chunks') {
        w = want.quasis.map((q) => q.value.raw);
        if (want.quasis.length > 1) w = w.filter((s) => s !== '');
        if (w.length !== got.chunks.length) return `${path}/chunks: oracle has ${JSON.stringify(w)}, got ${JSON.stringify(got.chunks)}`;
        for (let i = 0; i < w.length; i++) if (!w[i].includes('\\') && !w[i].includes('\n') && !/\r/.test(source) && w[i] !== got.chunks[i]) return `${path}/chunks: oracle has ${JSON.stringify(w)}, got ${JSON.stringify(got.chunks)}`;
        continue;
      }
      if (k === 'accessor') w = want.kind === 'constructor' ? 'method' : want.kind;
      const g = got[k];
      if (g !== null && typeof g === 'object') {
        if (w === null || w === undefined) return `${path}/${k}: oracle has nothing, got ${g.type || 'a list'}`;
        const d = diff(w, g, `${path}/${k}`);
        if (d) return d;
      } else if (w !== g) {
        const show = w && typeof w === 'object' ? w.type || 'a list' : JSON.stringify(w);
        return `${path}/${k}: oracle has ${show}, got ${JSON.stringify(g)}`;
      }
    }
    return null;
  }
  if (want === null && got === null) return null;
  if (want !== got) return `${path}: oracle has ${want && want.type || JSON.stringify(want)}, got ${got && got.type || JSON.stringify(got)}`;
  return null;
}

function answer(q) {
  let tree, v8;
  try {
    if (q.m) new vm.SourceTextModule(q.s); else new vm.Script(q.s);
    v8 = null;
  } catch (e) {
    if (!(e instanceof SyntaxError)) return { ok: null, msg: String(e) };
    v8 = e.message;
  }
  try {
    tree = acorn.parse(q.s, { ecmaVersion: 12, sourceType: q.m ? 'module' : 'script', preserveParens: true });
  } catch (e) {
    if (!(e instanceof SyntaxError)) return { ok: null, msg: String(e) };
    const msg = e.message.replace(/ \(\d+:\d+\)$/, '');
    // The two do not agree: no verdict.
    if (/regular expression/.test(msg)) return { ok: null, msg };
    if (/<!--|-->/.test(q.s)) return { ok: null, msg };
    if (v8 === null) return { ok: null, msg: 'only acorn rejects: ' + msg };
    return { ok: false, msg, v8, pos: e.pos };
  }
  if (v8 !== null) return { ok: null, msg: 'only v8 rejects: ' + v8 };
  if (!q.ast) return { ok: true, features: features(tree) };
  source = q.s;
  inGenerator = false;
  ascii = /^[\x00-\x7f]*$/.test(q.s);
  let mine;
  try { mine = program(q.ast); } catch (e) { return { ok: true, diff: 'convert: ' + e.message }; }
  // acorn does not see HTML comments in some of its lookahead.
  // Neither is it sure what `/` is after `of`.
  return { ok: true, features: features(tree), diff: /<!--|-->|\bof\s*\//.test(source) ? null : diff(tree, mine, '') };
}

readline.createInterface({ input: process.stdin, terminal: false }).on('line', (line) => {
  process.stdout.write(JSON.stringify(answer(JSON.parse(line))) + '\n');
});
