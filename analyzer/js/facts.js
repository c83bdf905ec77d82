// facts.js REPO prints what the script library does, from its sources and from
// the bundle, as JSON. Nothing of the library is executed: functions are
// evaluated symbolically over the syntax tree.
'use strict';
const fs = require('fs');
const path = require('path');
const base = process.env.RQ_NODE_MODULES || '/opt/veriftools/node/node_modules';
const ts = require(path.join(base, 'typescript'));
const K = ts.SyntaxKind;

function analyse(file, options) {
  const program = ts.createProgram([file], Object.assign({ target: ts.ScriptTarget.ES2020, lib: ['lib.es2020.d.ts'], strict: true, noResolve: false, types: [], allowJs: true, module: ts.ModuleKind.CommonJS }, options));
  const ck = program.getTypeChecker();
  const src = program.getSourceFile(file);
  const out = { exports: {}, interfaces: {}, enums: {} };

  const resolve = (sym) => (sym && sym.flags & ts.SymbolFlags.Alias ? ck.getAliasedSymbol(sym) : sym);
  const strip = (n) => {
    while (n && (ts.isParenthesizedExpression(n) || ts.isNonNullExpression(n))) n = n.expression;
    return n;
  };

  // ---- types
  function en(s) {
    if (!s) return ['enum', '?'];
    const d = s.valueDeclaration || (s.declarations && s.declarations[0]);
    const e = enumOf(d);
    if (e) out.enums[s.name] = e;
    return ['enum', s.name];
  }
  function type(t, seen) {
    if (!t) return ['any'];
    if (t.flags & ts.TypeFlags.Any || t.flags & ts.TypeFlags.Unknown) return ['any'];
    if (t.isUnion()) {
      const rest = t.types.filter((x) => !(x.flags & (ts.TypeFlags.Undefined | ts.TypeFlags.Null)));
      if (rest.length === 1) return type(rest[0]);
      if (rest.every((x) => x.flags & ts.TypeFlags.BooleanLike)) return ['boolean'];
      if (rest.every((x) => x.flags & ts.TypeFlags.EnumLike)) {
        const s = rest[0].symbol && rest[0].symbol.flags & ts.SymbolFlags.EnumMember ? rest[0].symbol.parent : t.symbol;
        return en(s);
      }
      if (rest.every((x) => x.flags & ts.TypeFlags.StringLike)) return ['string'];
      if (rest.every((x) => x.flags & ts.TypeFlags.NumberLike)) return ['number'];
      return ['union'].concat(rest.map((x) => type(x)));
    }
    if (t.flags & ts.TypeFlags.EnumLike && t.symbol) {
      const p = t.symbol.flags & ts.SymbolFlags.EnumMember ? t.symbol.parent : t.symbol;
      return en(p);
    }
    if (t.flags & ts.TypeFlags.StringLike) return ['string'];
    if (t.flags & ts.TypeFlags.NumberLike) return ['number'];
    if (t.flags & ts.TypeFlags.BigIntLike) return ['number'];
    if (t.flags & ts.TypeFlags.BooleanLike) return ['boolean'];
    if (t.flags & ts.TypeFlags.VoidLike) return ['void'];
    if (ck.isArrayType(t)) return ['array', type(ck.getTypeArguments(t)[0])];
    const n = t.symbol && t.symbol.name;
    if (n === 'Uint8Array' || n === 'ArrayBuffer') return ['bytes'];
    if (n === 'Date') return ['date'];
    if (t.isIntersection() || n === '__type' || n === '__object') {
      return ['object', members(t)];
    }
    if (n && t.symbol.flags & ts.SymbolFlags.Interface) {
      if (!out.interfaces[n]) {
        out.interfaces[n] = [];
        out.interfaces[n] = members(t);
      }
      return ['ref', n];
    }
    if (n && t.symbol.flags & ts.SymbolFlags.Class) return ['class', n];
    return ['other', ck.typeToString(t)];
  }
  function members(t) {
    return ck.getPropertiesOfType(t).map((p) => {
      const d = p.valueDeclaration || (p.declarations && p.declarations[0]) || src;
      const pt = ck.getTypeOfSymbolAtLocation(p, d);
      const sigs = pt.getCallSignatures();
      const m = { name: p.name, optional: !!(p.flags & ts.SymbolFlags.Optional), line: d.getSourceFile().getLineAndCharacterOfPosition(d.getStart()).line + 1, file: path.basename(d.getSourceFile().fileName) };
      if (sigs.length) {
        m.method = true;
        m.params = sigs[0].parameters.map((q) => type(ck.getTypeOfSymbolAtLocation(q, d)));
        m.type = type(sigs[0].getReturnType());
      } else m.type = type(pt);
      return m;
    });
  }

  // ---- enumerations
  function enumOf(decl) {
    if (!decl) return null;
    if (ts.isEnumDeclaration(decl)) {
      const r = {};
      for (const m of decl.members) r[m.name.text] = ck.getConstantValue(m);
      return r;
    }
    if (!ts.isVariableDeclaration(decl) || !decl.initializer) return null;
    const call = strip(decl.initializer);
    if (!ts.isCallExpression(call)) return null;
    const f = strip(call.expression);
    if (!f || !(ts.isArrowFunction(f) || ts.isFunctionExpression(f)) || f.parameters.length !== 1) return null;
    const es = [];
    const flat = (e) => {
      e = strip(e);
      if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.CommaToken) { flat(e.left); flat(e.right); } else es.push(e);
    };
    if (ts.isBlock(f.body)) { for (const s of f.body.statements) if (s.expression) flat(s.expression); } else flat(f.body);
    const r = {};
    const lit = (e) => {
      e = strip(e);
      if (ts.isStringLiteralLike(e)) return e.text;
      if (ts.isNumericLiteral(e)) return Number(e.text);
      if (ts.isPrefixUnaryExpression(e) && e.operator === K.MinusToken) return -lit(e.operand);
      return undefined;
    };
    const name = (e) => (ts.isPropertyAccessExpression(e) ? e.name.text : ts.isElementAccessExpression(e) ? lit(e.argumentExpression) : undefined);
    for (const e of es) {
      if (!ts.isBinaryExpression(e) || e.operatorToken.kind !== K.EqualsToken) continue;
      let l = strip(e.left);
      if (ts.isElementAccessExpression(l) && ts.isBinaryExpression(strip(l.argumentExpression))) {
        const i = strip(l.argumentExpression);
        r[name(strip(i.left))] = lit(i.right);
      } else r[name(l)] = lit(e.right);
    }
    return Object.keys(r).length ? r : null;
  }

  // ---- declarations
  const top = (decl) => {
    let p = decl && decl.parent;
    while (p && (ts.isVariableDeclarationList(p) || ts.isVariableStatement(p))) p = p.parent;
    return p && ts.isSourceFile(p) && !p.isDeclarationFile;
  };
  function classOf(decl) {
    if (!decl) return null;
    if (ts.isClassDeclaration(decl) || ts.isClassExpression(decl)) return decl;
    if (ts.isVariableDeclaration(decl) && decl.initializer) {
      const i = strip(decl.initializer);
      if (ts.isClassExpression(i)) return i;
    }
    return null;
  }
  function funcOf(decl) {
    if (!decl) return null;
    if (ts.isFunctionDeclaration(decl)) return decl;
    if (ts.isVariableDeclaration(decl) && decl.initializer) {
      const i = strip(decl.initializer);
      if (ts.isArrowFunction(i) || ts.isFunctionExpression(i)) return i;
    }
    return null;
  }
  function baseOf(cls) {
    for (const h of cls.heritageClauses || []) {
      if (h.token !== K.ExtendsKeyword) continue;
      const s = resolve(ck.getSymbolAtLocation(h.types[0].expression));
      return s && classOf(s.valueDeclaration || s.declarations[0]);
    }
    return null;
  }
  function member(cls, name, isStatic) {
    for (let c = cls; c; c = baseOf(c)) {
      for (const m of c.members) {
        if (!(ts.isMethodDeclaration(m) || ts.isGetAccessor(m)) || !m.name || m.name.text !== name) continue;
        const st = !!(m.modifiers && m.modifiers.some((x) => x.kind === K.StaticKeyword));
        if (st === isStatic) return m;
      }
    }
    return null;
  }
  function ctor(cls) {
    for (let c = cls; c; c = baseOf(c)) for (const m of c.members) if (ts.isConstructorDeclaration(m)) return { m, c };
    return null;
  }

  // ---- evaluation
  function constOf(n) {
    const s = resolve(ck.getSymbolAtLocation(n));
    return s;
  }
  function expr(n, cx) {
    n = strip(n);
    if (!n) return ['undef'];
    if (ts.isAsExpression(n) || ts.isTypeAssertionExpression(n) || ts.isSatisfiesExpression(n)) {
      const x = expr(n.expression, cx);
      const t = type(ck.getTypeAtLocation(n));
      cx.casts.push([t, x]);
      return x;
    }
    switch (n.kind) {
      case K.ThisKeyword: return cx.self || ['this'];
      case K.TrueKeyword: return ['const', true];
      case K.FalseKeyword: return ['const', false];
      case K.NullKeyword: return ['const', null];
    }
    if (ts.isStringLiteralLike(n)) return ['const', n.text];
    if (ts.isNumericLiteral(n)) return ['const', Number(n.text)];
    if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) {
      const o = expr(n.operand, cx);
      if (o[0] === 'const') return ['const', !o[1]];
      return ['not', o];
    }
    if (ts.isVoidExpression && ts.isVoidExpression(n)) return ['undef'];
    if (ts.isIdentifier(n)) {
      if (n.text === 'undefined') return ['undef'];
      const s = constOf(n);
      if (s && cx.env.has(s)) return cx.env.get(s);
      const d = s && (s.valueDeclaration || (s.declarations && s.declarations[0]));
      if (d && top(d)) {
        const e = enumOf(d);
        if (e) return ['enum', e];
        const c = classOf(d);
        if (c) return ['class', c];
        const f = funcOf(d);
        if (f) return ['func', f];
        if (ts.isVariableDeclaration(d) && d.initializer && d.parent.flags & ts.NodeFlags.Const) return expr(d.initializer, cx);
        return ['top', n.text];
      }
      return ['global', n.text];
    }
    if (ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n)) {
      const o = expr(n.expression, cx);
      let key = ts.isPropertyAccessExpression(n) ? n.name.text : null;
      if (key === null) {
        const k = expr(n.argumentExpression, cx);
        if (k[0] === 'const') key = String(k[1]);
        else return ['index', o, k];
      }
      if (o[0] === 'enum') return key in o[1] ? ['const', o[1][key]] : ['undef'];
      if (o[0] === 'this' && cx.fields[key]) return cx.fields[key];
      if (n.questionDotToken) return ['optional', o, key];
      return ['prop', o, key];
    }
    if (ts.isCallExpression(n)) return call(n, cx);
    if (ts.isNewExpression(n)) {
      const c = expr(n.expression, cx);
      return ['new', c[0] === 'class' ? nameOf(c[1]) : c].concat((n.arguments || []).map((a) => arg(a, cx)));
    }
    if (ts.isBinaryExpression(n)) {
      const k = n.operatorToken.kind;
      if (k === K.CommaToken) { expr(n.left, cx); return expr(n.right, cx); }
      if (k === K.AmpersandAmpersandToken || k === K.BarBarToken) {
        const l = expr(n.left, cx);
        if (l[0] === 'const' || l[0] === 'undef') {
          const v = l[0] === 'const' && !!l[1];
          return (k === K.AmpersandAmpersandToken) === v ? expr(n.right, cx) : l;
        }
        const g = k === K.AmpersandAmpersandToken ? l : ['not', l];
        const r = expr(n.right, Object.assign({}, cx, { guards: cx.guards.concat([g]) }));
        return [k === K.AmpersandAmpersandToken ? 'and' : 'or', l, r];
      }
      if (k === K.EqualsToken) {
        const r = expr(n.right, cx);
        const l = strip(n.left);
        if (ts.isPropertyAccessExpression(l) && l.expression.kind === K.ThisKeyword) {
          cx.effects.push({ guards: cx.guards, set: l.name.text, term: r });
          return r;
        }
        if (ts.isIdentifier(l)) {
          const s = constOf(l);
          if (s && cx.env.has(s)) {
            cx.env.set(s, cx.guards.length ? ['choice', cx.guards, r, cx.env.get(s)] : r);
            return r;
          }
        }
        cx.effects.push({ guards: cx.guards, assign: expr(l, cx), term: r });
        return r;
      }
      return ['bin', ts.tokenToString(k), expr(n.left, cx), expr(n.right, cx)];
    }
    if (ts.isConditionalExpression(n)) {
      const c = expr(n.condition, cx);
      if (c[0] === 'const') return expr(c[1] ? n.whenTrue : n.whenFalse, cx);
      const a = expr(n.whenTrue, Object.assign({}, cx, { guards: cx.guards.concat([c]) }));
      const b = expr(n.whenFalse, Object.assign({}, cx, { guards: cx.guards.concat([['not', c]]) }));
      return ['cond', c, a, b];
    }
    if (ts.isObjectLiteralExpression(n)) {
      return ['object'].concat(n.properties.map((p) => {
        if (ts.isPropertyAssignment(p)) return [p.name.text, expr(p.initializer, cx)];
        if (ts.isShorthandPropertyAssignment(p)) {
          const s = ck.getShorthandAssignmentValueSymbol(p);
          return [p.name.text, cx.env.get(s) || ['global', p.name.text]];
        }
        if (ts.isSpreadAssignment(p)) return ['...', expr(p.expression, cx)];
        return ['?', p.getText()];
      }));
    }
    if (ts.isArrayLiteralExpression(n)) return ['array'].concat(n.elements.map((a) => arg(a, cx)));
    if (ts.isArrowFunction(n) || ts.isFunctionExpression(n)) return closure(n, cx);
    const kids = [];
    ts.forEachChild(n, (x) => { kids.push(ts.isExpression(x) ? expr(x, cx) : ['text', x.getText()]); });
    return ['node', K[n.kind]].concat(kids);
  }
  function arg(a, cx) {
    if (ts.isSpreadElement(a)) return ['spread', expr(a.expression, cx)];
    return expr(a, cx);
  }
  function closure(f, cx) {
    const effects = [];
    const c2 = { env: new Map(cx.env), self: ts.isArrowFunction(f) ? cx.self : undefined, fields: cx.fields, cls: cx.cls, guards: [], effects, returns: [], casts: cx.casts, depth: cx.depth, stack: cx.stack };
    f.parameters.forEach((p, i) => bind(p, ['local', cx.depth, i], c2));
    body(f, c2);
    return ['fn', f.parameters.length, effects, c2.returns];
  }
  function nameOf(cls) {
    for (const k of Object.keys(exported)) if (exported[k].cls === cls) return k;
    return cls.name ? cls.name.text : '?';
  }
  function bind(p, v, cx) {
    if (ts.isIdentifier(p.name)) {
      const s = ck.getSymbolAtLocation(p.name);
      if (p.initializer) v = v[0] === 'undef' ? expr(p.initializer, cx) : ['default', v, expr(p.initializer, cx)];
      cx.env.set(s, v);
      return;
    }
    const walk = (pat, val) => {
      for (const e of pat.elements) {
        if (!e.name) continue;
        const k = e.propertyName ? e.propertyName.text : e.name.text;
        if (ts.isIdentifier(e.name)) cx.env.set(ck.getSymbolAtLocation(e.name), ['prop', val, k]);
        else walk(e.name, ['prop', val, k]);
      }
    };
    walk(p.name, v);
  }
  function inline(f, args, cx, self, cls) {
    if (cx.depth > 8 || cx.stack.includes(f)) return null;
    const c2 = { env: new Map(), self, fields: cx.fields, cls, guards: cx.guards, effects: cx.effects, returns: [], casts: cx.casts, depth: cx.depth + 1, stack: cx.stack.concat([f]) };
    f.parameters.forEach((p, i) => {
      if (p.dotDotDotToken) {
        const rest = args.slice(i);
        bind(p, rest.length === 1 && rest[0][0] === 'spread' ? rest[0][1] : ['array'].concat(rest), c2);
      } else bind(p, args[i] || ['undef'], c2);
    });
    body(f, c2);
    if (c2.returns.length === 0) return ['undef'];
    if (c2.returns.length === 1 && c2.returns[0].guards.length === cx.guards.length) return c2.returns[0].term;
    return ['returns'].concat(c2.returns.map((r) => [r.guards.slice(cx.guards.length), r.term]));
  }
  function call(n, cx) {
    const callee = strip(n.expression);
    const args = () => n.arguments.map((a) => arg(a, cx));
    if (callee.kind === K.SuperKeyword) {
      const b = cx.cls && baseOf(cx.cls);
      const c = b && ctor(b);
      const as = args();
      if (c) inline(c.m, as, cx, ['this'], c.c);
      return ['undef'];
    }
    if (ts.isPropertyAccessExpression(callee)) {
      if (callee.expression.kind === K.SuperKeyword) {
        const b = cx.cls && baseOf(cx.cls);
        const m = b && member(b, callee.name.text, false);
        const as = args();
        const r = m && inline(m, as, cx, ['this'], m.parent);
        if (r) return r;
      }
      const o = expr(callee.expression, cx);
      const as = args();
      if (o[0] === 'this' && cx.whole) {
        const m = member(cx.whole, callee.name.text, false);
        const r = m && inline2(m, as, cx);
        if (r) return r;
      }
      if (o[0] === 'class') {
        const m = member(o[1], callee.name.text, true);
        const r = m && inline(m, as, cx, o, o[1]);
        if (r) return r;
      }
      const t = [callee.questionDotToken || n.questionDotToken ? 'optcall' : 'call', ['prop', o[0] === 'class' ? ['class', nameOf(o[1])] : o, callee.name.text]].concat(as);
      cx.effects.push({ guards: cx.guards, term: t, line: line(n) });
      return t;
    }
    const f = expr(callee, cx);
    const as = args();
    if (f[0] === 'func') {
      const r = inline(f[1], as, cx, undefined, null);
      if (r) return r;
    }
    const t = ['call', f[0] === 'func' ? ['func', '?'] : f].concat(as);
    cx.effects.push({ guards: cx.guards, term: t, line: line(n) });
    return t;
  }
  const inline2 = (m, as, cx) => inlineW(m, as, cx, m.parent);
  function inlineW(f, args, cx, cls) {
    const r = inline(f, args, cx, ['this'], cls);
    return r;
  }
  const line = (n) => { const s = n.getSourceFile(); return path.basename(s.fileName) + ':' + (s.getLineAndCharacterOfPosition(n.getStart()).line + 1); };

  function body(f, cx) {
    cx.whole = current;
    if (!f.body) return;
    if (!ts.isBlock(f.body)) {
      const t = expr(f.body, cx);
      cx.returns.push({ guards: cx.guards, term: t });
      return;
    }
    block(f.body.statements, cx);
  }
  // block tells whether the end is reached.
  function block(list, cx) {
    let guards = cx.guards;
    for (const s of list) {
      const c2 = Object.assign({}, cx, { guards });
      const g = stmt(s, c2);
      if (g === null) return false;
      guards = guards.concat(g);
    }
    return true;
  }
  function stmt(s, cx) {
    if (ts.isExpressionStatement(s)) { expr(s.expression, cx); return []; }
    if (ts.isReturnStatement(s)) {
      const t = s.expression ? expr(s.expression, cx) : ['undef'];
      cx.returns.push({ guards: cx.guards, term: t });
      return null;
    }
    if (ts.isBlock(s)) return block(s.statements, cx) ? [] : null;
    if (ts.isIfStatement(s)) {
      const c = expr(s.expression, cx);
      if (c[0] === 'const' || c[0] === 'undef') {
        const v = c[0] === 'const' && !!c[1];
        if (v) return stmt(s.thenStatement, cx);
        return s.elseStatement ? stmt(s.elseStatement, cx) : [];
      }
      const a = stmt(s.thenStatement, Object.assign({}, cx, { guards: cx.guards.concat([c]) }));
      const b = s.elseStatement ? stmt(s.elseStatement, Object.assign({}, cx, { guards: cx.guards.concat([['not', c]]) })) : [];
      if (a === null && b === null) return null;
      if (a === null) return [['not', c]];
      if (b === null) return [c];
      return [];
    }
    if (ts.isVariableStatement(s)) {
      for (const d of s.declarationList.declarations) bind(d, d.initializer ? expr(d.initializer, cx) : ['undef'], Object.assign({}, cx, {}));
      for (const d of s.declarationList.declarations) if (ts.isIdentifier(d.name) && d.initializer) cx.env.set(ck.getSymbolAtLocation(d.name), unDefault(cx.env.get(ck.getSymbolAtLocation(d.name))));
      return [];
    }
    if (ts.isEmptyStatement(s)) return [];
    const kids = [];
    const walk = (x) => {
      if (ts.isExpression(x)) kids.push(expr(x, Object.assign({}, cx, { guards: cx.guards.concat([['node', K[s.kind]]]) })));
      else if (ts.isStatement(x)) { stmt(x, Object.assign({}, cx, { guards: cx.guards.concat([['node', K[s.kind]]]) })); } else ts.forEachChild(x, walk);
    };
    ts.forEachChild(s, walk);
    cx.effects.push({ guards: cx.guards, term: ['node', K[s.kind]].concat(kids) });
    return [];
  }
  const unDefault = (t) => (t && t[0] === 'default' ? t[1] : t);

  let current = null;
  function summary(f, cls) {
    current = cls;
    const fields = {};
    const cx = { env: new Map(), self: cls ? ['this'] : undefined, fields, cls, whole: cls, guards: [], effects: [], returns: [], casts: [], depth: 0, stack: [f] };
    const params = [];
    f.parameters.forEach((p, i) => {
      params.push({ type: type(ck.getTypeAtLocation(p.name)), optional: !!(p.questionToken || p.initializer), rest: !!p.dotDotDotToken });
      bind(p, ['param', i], cx);
    });
    body(f, cx);
    return { params, effects: cx.effects, returns: cx.returns, casts: cx.casts, line: line(f) };
  }

  // ---- exports
  const exported = {};
  function add(name, sym) {
    sym = resolve(sym);
    const d = sym && (sym.valueDeclaration || (sym.declarations && sym.declarations[0]));
    if (!d) return;
    const e = enumOf(d);
    if (e) { exported[name] = { enum: e }; return; }
    const c = classOf(d);
    if (c) { exported[name] = { cls: c }; return; }
    const f = funcOf(d);
    if (f) { exported[name] = { fn: f }; return; }
    if (ts.isInterfaceDeclaration(d) || ts.isTypeAliasDeclaration(d)) {
      if (ts.isInterfaceDeclaration(d)) type(ck.getTypeAtLocation(d));
      return;
    }
    exported[name] = { other: true };
  }
  const mod = ck.getSymbolAtLocation(src);
  let fromMap = false;
  const scan = (n) => {
    // __export(x, {A: () => a, ...})
    if (ts.isCallExpression(n) && n.arguments.length === 2 && ts.isObjectLiteralExpression(n.arguments[1])) {
      const ps = n.arguments[1].properties;
      const ok = ps.length > 0 && ps.every((p) => ts.isPropertyAssignment(p) && ts.isArrowFunction(p.initializer) && p.initializer.parameters.length === 0 && ts.isIdentifier(p.initializer.body));
      if (ok) {
        fromMap = true;
        for (const p of ps) add(p.name.text, ck.getSymbolAtLocation(p.initializer.body));
      }
    }
  };
  if (file.endsWith('.js')) {
    const walk = (n) => { scan(n); if (!ts.isFunctionLike(n)) ts.forEachChild(n, walk); };
    walk(src);
  }
  if (!fromMap && mod) for (const s of ck.getExportsOfModule(mod)) add(s.name, s);

  for (const name of Object.keys(exported).sort()) {
    const x = exported[name];
    if (x.enum) { out.exports[name] = { kind: 'enum', members: x.enum }; continue; }
    if (x.other) { out.exports[name] = { kind: 'other' }; continue; }
    if (x.fn) { out.exports[name] = Object.assign({ kind: 'func' }, summary(x.fn, null)); continue; }
    const cls = x.cls;
    const o = { kind: 'class', base: null, methods: {}, statics: {} };
    const b = baseOf(cls);
    if (b) o.base = nameOf(b);
    const c = ctor(cls);
    if (c) { o.ctor = summaryC(c.m, cls, c.c); }
    const seen = new Set();
    for (let k = cls; k; k = baseOf(k)) {
      for (const m of k.members) {
        if (!ts.isMethodDeclaration(m) && !ts.isGetAccessor(m)) continue;
        const priv = m.modifiers && m.modifiers.some((q) => q.kind === K.PrivateKeyword || q.kind === K.ProtectedKeyword);
        const st = !!(m.modifiers && m.modifiers.some((q) => q.kind === K.StaticKeyword));
        const key = (st ? 's ' : 'm ') + m.name.text;
        if (seen.has(key)) continue;
        seen.add(key);
        const r = summary(m, cls);
        if (priv) r.private = true;
        (st ? o.statics : o.methods)[m.name.text] = r;
      }
    }
    out.exports[name] = o;
  }
  function summaryC(m, whole, declaring) {
    current = whole;
    const cx = { env: new Map(), self: ['this'], fields: {}, cls: declaring, whole, guards: [], effects: [], returns: [], casts: [], depth: 0, stack: [m] };
    const params = [];
    m.parameters.forEach((p, i) => {
      params.push({ type: type(ck.getTypeAtLocation(p.name)), optional: !!(p.questionToken || p.initializer), rest: !!p.dotDotDotToken });
      bind(p, ['param', i], cx);
    });
    body(m, cx);
    return { params, effects: cx.effects, returns: cx.returns, casts: cx.casts, line: line(m) };
  }
  return out;
}

const repo = process.argv[2];
const entry = path.join(repo, process.argv[3]);
const bundle = path.join(repo, process.argv[4]);
const clean = (k, v) => {
  if (Array.isArray(v) && v[0] === 'class' && v[1] && v[1].kind) return ['class', '?'];
  if (Array.isArray(v) && v[0] === 'func' && v[1] && v[1].kind) return ['func', '?'];
  return v;
};
const r = { source: analyse(entry, {}), bundle: analyse(bundle, { checkJs: false }) };
const pk = path.join(path.dirname(path.dirname(entry)), 'package.json');
r.package = fs.existsSync(pk) ? JSON.parse(fs.readFileSync(pk, 'utf8')).name : '';
process.stdout.write(JSON.stringify(r, clean));
