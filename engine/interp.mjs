// Symbolic interpreter for the TypeScript fragment used by the functions under contract.
// It runs the syntax trees of /repo's current source; anything outside the fragment raises OutOfFragment.
import ts from "/opt/veriftools/node/node_modules/typescript/lib/typescript.js";
import fs from "node:fs";
import path from "node:path";
import * as T from "./term.mjs";

const SK = ts.SyntaxKind;
export { ts };

export class OutOfFragment extends Error {}
export class PathEnd extends Error {
  constructor(why) {
    super(why);
    this.why = why;
  }
}
export class JSThrow extends Error {
  constructor(v) {
    super("JSThrow");
    this.v = v;
  }
}
class ReturnEx {
  constructor(v) {
    this.v = v;
  }
}
class BreakEx {
  constructor(label) {
    this.label = label;
  }
}
class ContinueEx {
  constructor(label) {
    this.label = label;
  }
}

// ---------------- values ----------------
export const UNDEF = { k: "undef" }, NULL = { k: "null" };
export const B = (t) => ({ k: "bool", t });
export const N = (t) => ({ k: "num", t: typeof t === "object" ? t : T.num(t) });
export const BIG = (t) => ({ k: "big", t: typeof t === "object" ? t : T.num(t) });
const strCodes = new Map();
const strByCode = [];
export function strCode(lit) {
  let c = strCodes.get(lit);
  if (c === undefined) {
    c = strCodes.size;
    strCodes.set(lit, c);
    strByCode.push(lit);
  }
  // literals occupy negative codes; symbolic strings range over all integers
  return T.num(-1 - c);
}
export const strOfCode = (n) => strByCode[Number(-1n - n)];
const PRELUDE_FILE = /\/spec\/(prelude|ghost)\.ts$/;
export const S = (lit) => ({ k: "str", lit, t: strCode(lit) });
export const SYM = (t) => {
  if (t.op === "num" && t.c < 0n && strByCode[Number(-1n - t.c)] !== undefined) return S(strByCode[Number(-1n - t.c)]);
  return { k: "str", t };
};
export const TRUE = B(T.TRUE), FALSE = B(T.FALSE);
export const isObj = (v) => v.k === "obj" || v.k === "fn" || v.k === "native" || v.k === "class";

export function kindName(v) {
  if (v.k === "obj") return "obj:" + v.o.tag + (v.o.cls ? ":" + v.o.cls.name : "");
  return v.k;
}

// ---------------- modules ----------------
const astCache = new Map();
export function parseFile(file, text) {
  const key = file;
  if (!astCache.has(key)) {
    const src = text ?? fs.readFileSync(file, "utf8");
    const sf = ts.createSourceFile(file, src, ts.ScriptTarget.Latest, true, ts.ScriptKind.TS);
    astCache.set(key, sf);
  }
  return astCache.get(key);
}
const posId = (node) => {
  const sf = node.getSourceFile();
  return path.basename(sf.fileName) + ":" + (node.__pid ??= node.getStart(sf));
};
export const where = (node) => {
  const sf = node.getSourceFile();
  const { line } = sf.getLineAndCharacterOfPosition(node.getStart(sf));
  return sf.fileName.replace("/repo/", "") + ":" + (line + 1);
};

export class Scope {
  constructor(parent, module, fnName) {
    this.vars = new Map();
    this.parent = parent;
    this.module = module ?? parent?.module;
    this.fn = fnName ?? parent?.fn ?? "";
    this.isFn = fnName !== undefined;
  }
  lookup(name) {
    for (let s = this; s; s = s.parent) {
      const c = s.vars.get(name);
      if (c) return c;
    }
    return null;
  }
}

const PRELUDE = new URL("../spec/prelude.ts", import.meta.url).pathname;
const PRELUDE_NAMES = new Set(["Event", "CustomEvent", "EventTarget", "AbortSignal", "AbortController"]);
export class Interp {
  constructor(X, opts = {}) {
    this.X = X; // explorer: decide, assume, oblige, ...
    this.opts = opts;
    this.modules = new Map();
    this.cells = []; // every mutable cell of this path, in creation order
    this.micro = [];
    this.callStack = [];
    this.objN = 0;
    this.siteCount = new Map();
    this.pure = 0;
    this.steps = 0;
    this.overrides = opts.overrides ?? new Map(); // "file#name" -> native(interp,this,args)
    this.coverage = opts.coverage ?? new Set();
    this.builtins = opts.builtins(this);
    this.globalOverrides = new Map();
  }
  oof(node, msg) {
    throw new OutOfFragment(msg + (node ? " at " + where(node) + " `" + node.getText().slice(0, 80).replace(/\s+/g, " ") + "`" : ""));
  }
  cell(name, v) {
    const c = { name, v };
    this.cells.push(c);
    return c;
  }
  // ---------------- heap ----------------
  siteName(node, what) {
    const base = (node ? posId(node) : "") + what + "/" + this.callStack.map((f) => f.site).join(">");
    const n = this.siteCount.get(base) ?? 0;
    this.siteCount.set(base, n + 1);
    return base + (n ? "~" + n : "");
  }
  newObj(tag, node, cls) {
    const o = { tag, id: ++this.objN, cls: cls ?? null, fields: new Map(), name: this.siteName(node, tag) };
    return o;
  }
  setField(o, key, v) {
    const c = o.fields.get(key);
    if (c) c.v = v;
    else o.fields.set(key, this.cell(o.name + "." + key, v));
  }
  obj(fields, node, cls) {
    const o = this.newObj("obj", node, cls);
    for (const k of Object.keys(fields ?? {})) this.setField(o, k, fields[k]);
    return { k: "obj", o };
  }
  list(vals, node) {
    const o = this.newObj("arr", node);
    o.data = this.cell(o.name + ".[]", { list: vals });
    return { k: "obj", o };
  }
  // symbolic array: len term, at(i) -> value
  symArr(len, at, node) {
    const o = this.newObj("arr", node);
    o.data = this.cell(o.name + ".[]", { len, at });
    return { k: "obj", o };
  }
  newBuf(len, sel, node) {
    const o = this.newObj("buf", node);
    o.len = len;
    o.data = this.cell(o.name + ".data", { sel });
    return o;
  }
  bytesView(buf, off, len, node) {
    const o = this.newObj("bytes", node);
    o.buf = buf;
    o.off = off;
    o.len = len;
    return { k: "obj", o };
  }
  newBytes(len, sel, node) {
    return this.bytesView(this.newBuf(len, sel, node), T.ZERO, len, node);
  }
  zeros(len, node) {
    return this.newBytes(len, () => T.ZERO, node);
  }
  simp(t) {
    return this.pure ? t : this.X.ctx.simplify(t);
  }
  bytesSel(o) {
    const d = o.buf.data.v.sel, off = o.off;
    return (i) => d(T.add(off, i));
  }
  bytesSnapshot(o, node) { // independent copy
    return this.newBytes(o.len, this.bytesSel(o), node);
  }
  freshBytes(name, len, node) {
    const f = T.freshFn(name, 1, "Int", 0n, 255n);
    return this.newBytes(len, (i) => T.app(f, [i]), node);
  }
  err(name, msg, node) {
    const o = this.newObj("obj", node);
    o.err = name;
    this.setField(o, "name", S(name));
    this.setField(o, "message", typeof msg === "string" ? S(msg) : msg ?? S(""));
    return { k: "obj", o };
  }
  throwErr(name, msg, node) {
    throw new JSThrow(this.err(name, msg, node));
  }

  // ---------------- modules ----------------
  module(file) {
    if (this.modules.has(file)) return this.modules.get(file);
    const sf = parseFile(file);
    const m = { file, sf, scope: null, lazies: new Map(), imports: new Map(), exports: new Map(), stars: [] };
    m.scope = new Scope(null, m, "");
    this.modules.set(file, m);
    const expName = (s) => ts.getModifiers?.(s)?.some((x) => x.kind === SK.ExportKeyword);
    const isDefault = (s) => ts.getModifiers?.(s)?.some((x) => x.kind === SK.DefaultKeyword);
    for (const s of sf.statements) {
      if (ts.isImportDeclaration(s)) {
        const spec = s.moduleSpecifier.text;
        const cl = s.importClause;
        if (!cl || cl.isTypeOnly) continue;
        if (cl.name) m.imports.set(cl.name.text, { spec, name: "default" });
        const nb = cl.namedBindings;
        if (nb && ts.isNamespaceImport(nb)) m.imports.set(nb.name.text, { spec, name: "*" });
        else if (nb) for (const e of nb.elements) if (!e.isTypeOnly) m.imports.set(e.name.text, { spec, name: (e.propertyName ?? e.name).text });
      } else if (ts.isExportDeclaration(s)) {
        if (s.isTypeOnly) continue;
        const spec = s.moduleSpecifier?.text;
        if (!s.exportClause) m.stars.push(spec);
        else if (ts.isNamedExports(s.exportClause)) {
          for (const e of s.exportClause.elements) m.exports.set(e.name.text, spec ? { spec, name: (e.propertyName ?? e.name).text } : { local: (e.propertyName ?? e.name).text });
        } else m.exports.set(s.exportClause.name.text, { spec, name: "*" });
      } else if (ts.isFunctionDeclaration(s) && s.name) {
        if (!s.body) continue;
        m.lazies.set(s.name.text, { node: s, kind: "fn" });
        if (expName(s)) m.exports.set(isDefault(s) ? "default" : s.name.text, { local: s.name.text });
      } else if (ts.isClassDeclaration(s) && s.name) {
        m.lazies.set(s.name.text, { node: s, kind: "class" });
        if (expName(s)) m.exports.set(isDefault(s) ? "default" : s.name.text, { local: s.name.text });
      } else if (ts.isVariableStatement(s)) {
        for (const d of s.declarationList.declarations) {
          const names = [];
          const coll = (n) => ts.isIdentifier(n) ? names.push(n.text) : n.elements.forEach((e) => e.name && coll(e.name));
          coll(d.name);
          for (const n of names) {
            m.lazies.set(n, { node: d, kind: "var", const: !!(s.declarationList.flags & ts.NodeFlags.Const) });
            if (expName(s)) m.exports.set(n, { local: n });
          }
        }
      } else if (ts.isEnumDeclaration(s)) {
        m.lazies.set(s.name.text, { node: s, kind: "enum" });
        if (expName(s)) m.exports.set(s.name.text, { local: s.name.text });
      } else if (!ts.isInterfaceDeclaration(s) && !ts.isTypeAliasDeclaration(s) && !ts.isEmptyStatement(s) && !ts.isModuleDeclaration(s) && !ts.isExportAssignment(s)) {
        (m.effects ??= []).push(s); // run when something of the module is used first
      }
    }
    return m;
  }
  resolveSpec(m, spec) {
    if (spec.startsWith(".") || spec.startsWith("/")) return path.resolve(path.dirname(m.file), spec);
    if (spec.startsWith("file://")) return spec.slice(7);
    const im = this.opts.importMap?.[spec];
    if (im) return im;
    return null;
  }
  *exportOf(file, name, seen = new Set()) {
    if (seen.has(file + "#" + name)) return null;
    seen.add(file + "#" + name);
    const bi = this.builtins.modules?.(file, name);
    if (bi) return bi;
    if (name === "*") return { k: "ns", file };
    const m = this.module(file);
    const e = m.exports.get(name);
    if (e) {
      if (e.local) return yield* this.moduleVar(m, e.local);
      const f = this.resolveSpec(m, e.spec);
      if (!f) return this.builtins.external(e.spec, e.name) ?? null;
      return yield* this.exportOf(f, e.name, seen);
    }
    for (const sp of m.stars) {
      const f = this.resolveSpec(m, sp);
      const r = f ? yield* this.exportOf(f, name, seen) : this.builtins.external(sp, name);
      if (r) return r;
    }
    return null;
  }
  *moduleVar(m, name) {
    if (m.effects && !PRELUDE_FILE.test(m.file)) {
      const effects = m.effects;
      m.effects = null;
      const saved = this.callStack;
      this.callStack = [{ site: "module" }];
      try {
        for (const e of effects) yield* this.stmt(e, m.scope);
      } finally {
        this.callStack = saved;
      }
    }
    const c = m.scope.vars.get(name);
    if (c) return c.v;
    const ov = this.overrides.get(path.relative("/repo", m.file) + "#" + name);
    if (ov) {
      const v = ov.value ?? { k: "native", name, call: ov };
      m.scope.vars.set(name, { name, v });
      return v;
    }
    const lz = m.lazies.get(name);
    if (lz) {
      const saved = this.callStack;
      this.callStack = [{ site: "module" }];
      try {
        if (lz.kind === "fn") m.scope.vars.set(name, { name, v: this.makeFn(lz.node, m.scope, name) });
        else if (lz.kind === "class") {
          const holder = { name, v: UNDEF };
          m.scope.vars.set(name, holder);
          holder.v = yield* this.makeClass(lz.node, m.scope);
        } else if (lz.kind === "enum") {
          const o = this.newObj("obj", lz.node);
          let next = 0;
          for (const mem of lz.node.members) {
            let v;
            if (mem.initializer) v = yield* this.ev(mem.initializer, m.scope);
            else v = N(next);
            if (v.k === "num" && v.t.op === "num") next = Number(v.t.c) + 1;
            this.setField(o, mem.name.text, v);
          }
          m.scope.vars.set(name, { name, v: { k: "obj", o } });
        } else {
          const v = lz.node.initializer ? yield* this.ev(lz.node.initializer, m.scope) : UNDEF;
          if (ts.isIdentifier(lz.node.name)) m.scope.vars.set(name, this.cell("mod:" + path.basename(m.file) + ":" + name, v));
          else yield* this.bind(lz.node.name, v, m.scope, true);
        }
      } finally {
        this.callStack = saved;
      }
      return m.scope.vars.get(name).v;
    }
    const im = m.imports.get(name);
    if (im) {
      const f = this.resolveSpec(m, im.spec);
      let v;
      if (f) v = yield* this.exportOf(f, im.name);
      else v = this.builtins.external(im.spec, im.name);
      if (!v) this.oof(null, `unresolved import ${im.name} from ${im.spec} in ${m.file}`);
      m.scope.vars.set(name, { name, v });
      return v;
    }
    return null;
  }
  *lookupVar(name, scope, node) {
    const c = scope.lookup(name);
    if (c) {
      if (c.tdz) this.throwErr("ReferenceError", name, node);
      return c.v;
    }
    const v = yield* this.moduleVar(scope.module, name);
    if (v) return v;
    if (this.globalOverrides.has(name)) return this.globalOverrides.get(name);
    const g = this.builtins.globals[name];
    if (g !== undefined) return g;
    if (PRELUDE_NAMES.has(name)) return yield* this.exportOf(PRELUDE, name);
    this.oof(node, "unknown name " + name);
  }

  // ---------------- functions & classes ----------------
  makeFn(node, scope, name, thisV, home) {
    const mods = ts.getModifiers?.(node) ?? [];
    return {
      k: "fn",
      node,
      scope,
      name: name ?? node.name?.getText?.() ?? "<anon>",
      thisV, // arrows only
      home,
      isAsync: mods.some((m) => m.kind === SK.AsyncKeyword),
      isGen: !!node.asteriskToken,
      arrow: ts.isArrowFunction(node),
    };
  }
  *makeClass(node, scope) {
    const cls = { k: "class", node, scope, name: node.name?.text ?? "<class>", methods: new Map(), getters: new Map(), setters: new Map(), fields: [], statics: new Map(), ctor: null, superV: null };
    const ext = node.heritageClauses?.find((h) => h.token === SK.ExtendsKeyword);
    if (ext) cls.superV = yield* this.ev(ext.types[0].expression, scope);
    const inner = new Scope(scope);
    if (node.name) inner.vars.set(node.name.text, { name: node.name.text, v: cls });
    cls.inner = inner;
    const statics = [];
    for (const m of node.members) {
      const isStatic = ts.getModifiers?.(m)?.some((x) => x.kind === SK.StaticKeyword);
      if (ts.isConstructorDeclaration(m)) {
        if (m.body) cls.ctor = m;
        continue;
      }
      if (ts.isSemicolonClassElement(m) || ts.isIndexSignatureDeclaration(m)) continue;
      if (ts.isClassStaticBlockDeclaration(m)) this.oof(m, "static block");
      const key = yield* this.propName(m.name, inner);
      if (ts.isMethodDeclaration(m)) {
        if (!m.body) continue;
        const f = this.makeFn(m, inner, cls.name + "." + key, undefined, cls);
        if (isStatic) cls.statics.set(key, { name: key, v: f });
        else cls.methods.set(key, f);
      } else if (ts.isGetAccessor(m)) (isStatic ? (cls.sgetters ??= new Map()) : cls.getters).set(key, this.makeFn(m, inner, cls.name + ".get " + key, undefined, cls));
      else if (ts.isSetAccessor(m)) cls.setters.set(key, this.makeFn(m, inner, cls.name + ".set " + key, undefined, cls));
      else if (ts.isPropertyDeclaration(m)) {
        if (ts.getModifiers?.(m)?.some((x) => x.kind === SK.DeclareKeyword || x.kind === SK.AbstractKeyword)) continue;
        if (isStatic) statics.push([key, m]);
        else cls.fields.push([key, m]);
      } else this.oof(m, "class member");
    }
    for (const [key, m] of statics) cls.statics.set(key, this.cell(cls.name + "::" + key, m.initializer ? yield* this.ev(m.initializer, inner, cls) : UNDEF));
    return cls;
  }
  findMember(cls, key) {
    for (let c = cls; c; c = c.superV) {
      if (c.k === "native") {
        const nm = c.proto?.[key];
        return nm ? { kind: "native", f: nm } : null;
      }
      if (c.k !== "class") return null;
      if (c.methods.has(key)) return { kind: "method", f: c.methods.get(key) };
      if (c.getters.has(key)) return { kind: "getter", f: c.getters.get(key) };
    }
    return null;
  }
  findSetter(cls, key) {
    for (let c = cls; c && c.k === "class"; c = c.superV) if (c.setters.has(key)) return c.setters.get(key);
    return null;
  }
  instanceOf(v, cls) {
    if (v.k !== "obj") return false;
    if (cls.k === "native") {
      if (cls.isInstance) return cls.isInstance(v);
      for (let c = v.o.cls; c; c = c.superV) if (c === cls) return true;
      return false;
    }
    for (let c = v.o.cls; c; c = c.superV) if (c === cls || (c.node && c.node === cls.node)) return true;
    return false;
  }
  *construct(cls, args, node, newTarget) {
    if (cls.k === "native") {
      if (!cls.construct) this.oof(node, "construct " + cls.name);
      return yield* cls.construct(args, node, newTarget);
    }
    if (cls.k !== "class") this.oof(node, "new on " + cls.k);
    const self = { k: "obj", o: this.newObj("obj", node, cls) };
    yield* this.initInstance(cls, self, args, node);
    return self;
  }
  *initFields(cls, self) {
    for (const [key, m] of cls.fields) {
      const s = new Scope(cls.inner);
      const v = m.initializer ? yield* this.ev(m.initializer, s, self) : UNDEF;
      this.setField(self.o, key, v);
    }
  }
  *initInstance(cls, self, args, node) {
    if (cls.superV && !cls.ctor) {
      yield* this.superInit(cls, self, args, node);
      yield* this.initFields(cls, self);
      return;
    }
    if (!cls.superV) yield* this.initFields(cls, self);
    if (cls.ctor) {
      const fn = this.makeFn(cls.ctor, cls.inner, cls.name + ".constructor", undefined, cls);
      this.coverage.add(this.fnKey(fn));
      const saved = this.callStack;
      this.callStack = [...saved, { site: node ? posId(node) : "?", fn: fn.name }];
      try {
        const scope = new Scope(cls.inner, undefined, fn.name);
        yield* this.bindParams(cls.ctor, args, scope, self);
        for (const p of cls.ctor.parameters) {
          if (ts.getModifiers?.(p)?.length) this.setField(self.o, p.name.text, scope.lookup(p.name.text).v);
        }
        scope.superCall = true;
        try {
          yield* this.block(cls.ctor.body.statements, scope, self);
        } catch (e) {
          if (!(e instanceof ReturnEx)) throw e;
        }
      } finally {
        this.callStack = saved;
      }
    }
  }
  *superInit(cls, self, args, node) {
    const sup = cls.superV;
    if (sup.k === "class") yield* this.initInstance(sup, self, args, node);
    else if (sup.k === "native" && sup.superInit) yield* sup.superInit(self, args, node);
    else this.oof(node, "super " + (sup.name ?? sup.k));
  }
  *bindParams(node, args, scope, thisV) {
    let i = 0;
    for (const p of node.parameters) {
      if (ts.isIdentifier(p.name) && p.name.text === "this") continue;
      if (p.dotDotDotToken) {
        yield* this.bind(p.name, this.list(args.slice(i), p), scope, true);
        break;
      }
      let v = args[i] ?? UNDEF;
      if (p.initializer) {
        if (v.k === "undef") v = yield* this.ev(p.initializer, scope, thisV);
      }
      yield* this.bind(p.name, v, scope, true);
      i++;
    }
  }
  fnKey(fn) {
    const sf = fn.node.getSourceFile();
    return path.relative("/repo", sf.fileName) + "#" + fn.name;
  }
  *call(f, thisV, args, node) {
    if (++this.steps > (this.opts.maxUnroll >= 1000000 ? 20000000 : 400000)) this.oof(node, "step budget");
    if (f.k === "native") return yield* f.call(this, thisV, args, node);
    if (f.k === "bound") return yield* this.call(f.f, f.thisV, [...f.args, ...args], node);
    if (f.k !== "fn") {
      if (f.k === "undef" || f.k === "null") this.throwErr("TypeError", "not a function", node);
      this.oof(node, "call of " + kindName(f));
    }
    if (f.home || f.name !== "<anon>") {
      const key = this.fnKey(f);
      this.coverage.add(key);
      const ov = this.overrides.get(key);
      if (ov && !this.inlineOnce?.has(key)) return yield* ov(this, f.arrow ? f.thisV : thisV, args, node);
    }
    if (this.callStack.length > 60) this.oof(node, "call depth");
    if (f.isGen) {
      if (this.builtins.generator) return yield* this.builtins.generator(this, f, thisV, args, node);
      this.oof(node, "generator function");
    }
    if (f.isAsync) return this.callAsync(f, thisV, args, node);
    return yield* this.callBody(f, thisV, args, node);
  }
  *callBody(f, thisV, args, node) {
    const saved = this.callStack;
    this.callStack = [...saved, { site: node ? posId(node) : "?", fn: f.name }];
    const myStack = this.callStack;
    const scope = new Scope(f.scope, undefined, f.name);
    scope.thisV = f.arrow ? f.thisV : thisV;
    scope.home = f.home;
    const self = scope.thisV ?? UNDEF;
    try {
      yield* this.bindParams(f.node, args, scope, self);
      if (f.node.body.kind !== SK.Block) return yield* this.ev(f.node.body, scope, self);
      if (this.pure) return yield* this.pureBlock(f.node.body.statements, scope, self);
      yield* this.block(f.node.body.statements, scope, self);
      return UNDEF;
    } catch (e) {
      if (e instanceof ReturnEx) return e.v;
      throw e;
    } finally {
      this.callStack = saved;
    }
  }
  // merge-mode evaluation of a small body: const declarations, if/return chains
  *pureBlock(stmts, scope, self) {
    for (let i = 0; i < stmts.length; i++) {
      const s = stmts[i];
      if (ts.isReturnStatement(s)) return s.expression ? yield* this.ev(s.expression, scope, self) : UNDEF;
      if (ts.isIfStatement(s)) {
        const c = this.truthy(yield* this.ev(s.expression, scope, self));
        const rest = stmts.slice(i + 1);
        const body = (x) => ts.isBlock(x) ? [...x.statements] : [x];
        if (c === T.TRUE) return yield* this.pureBlock([...body(s.thenStatement), ...rest], new Scope(scope), self);
        if (c === T.FALSE) return yield* this.pureBlock([...(s.elseStatement ? body(s.elseStatement) : []), ...rest], new Scope(scope), self);
        const a = yield* this.pureBlock([...body(s.thenStatement), ...rest], new Scope(scope), self);
        const b = yield* this.pureBlock([...(s.elseStatement ? body(s.elseStatement) : []), ...rest], new Scope(scope), self);
        return this.merge(c, a, b, s);
      }
      yield* this.stmt(s, scope, self);
    }
    return UNDEF;
  }
  merge(c, a, b, node) {
    if (c === T.TRUE) return a;
    if (c === T.FALSE) return b;
    if (a.k === b.k && ["num", "big", "bool", "str"].includes(a.k) && !a.d && !b.d) {
      const t = T.ite(c, a.t, b.t);
      return a.k === "str" ? SYM(t) : { k: a.k, t };
    }
    if (a === b || (a.k === b.k && (a.k === "undef" || a.k === "null"))) return a;
    if (a.k === "obj" && b.k === "obj" && a.o === b.o) return a;
    this.oof(node, "merge of " + kindName(a) + " and " + kindName(b));
  }

  // ---------------- promises ----------------
  newPromise(node) {
    const o = this.newObj("promise", node);
    o.state = "pending";
    o.reactions = [];
    return { k: "obj", o };
  }
  resolvePromise(p, v) {
    if (p.o.state !== "pending" || p.o.locked) return;
    if (v.k === "obj" && v.o.tag === "promise") {
      p.o.locked = true;
      const settle = (state) => (x) => {
        p.o.locked = false;
        this.settle(p, state, x);
      };
      // adopting takes an extra microtask, as in the language
      this.micro.push(() => this.subscribe(v, settle("fulfilled"), settle("rejected")));
      return;
    }
    this.settle(p, "fulfilled", v);
  }
  rejectPromise(p, v) {
    if (p.o.state !== "pending" || p.o.locked) return;
    this.settle(p, "rejected", v);
  }
  settle(p, state, v) {
    if (p.o.state !== "pending") return;
    p.o.state = state;
    p.o.value = v;
    const rs = p.o.reactions;
    p.o.reactions = [];
    for (const r of rs) this.micro.push(() => r[state](v));
  }
  subscribe(p, onF, onR) {
    const r = { fulfilled: onF, rejected: onR };
    p.o.handled = true;
    if (p.o.state === "pending") p.o.reactions.push(r);
    else this.micro.push(() => r[p.o.state](p.o.value));
  }
  toPromise(v, node) {
    if (v.k === "obj" && v.o.tag === "promise") return v;
    const p = this.newPromise(node);
    this.resolvePromise(p, v);
    return p;
  }
  callAsync(f, thisV, args, node) {
    const p = this.newPromise(node);
    const gen = this.callBody(f, thisV, args, node);
    this.drive(gen, p);
    return p;
  }
  drive(gen, p) {
    let stack = this.callStack;
    const step = (mode, v) => {
      const outer = this.callStack;
      this.callStack = stack;
      let r;
      try {
        r = mode === "throw" ? gen.throw(new JSThrow(v)) : gen.next(v);
      } catch (e) {
        this.callStack = outer;
        if (e instanceof JSThrow) {
          this.rejectPromise(p, e.v);
          return;
        }
        throw e;
      }
      stack = this.callStack;
      this.callStack = outer;
      if (r.done) {
        this.resolvePromise(p, r.value);
        return;
      }
      const q = this.toPromise(r.value.await);
      this.subscribe(q, (x) => step("next", x), (x) => step("throw", x));
    };
    step("next");
  }
  drain() {
    let n = 0;
    while (this.micro.length || this.idle?.length) {
      if (++n > 200000) this.oof(null, "microtask budget");
      if (this.micro.length) this.micro.shift()();
      else this.resolvePromise(this.idle.shift(), UNDEF); // G.settle(): nothing else can run
    }
  }

  // ---------------- coercions ----------------
  truthy(v) {
    switch (v.k) {
      case "bool":
        return v.t;
      case "num":
        return T.not(T.eq(v.t, T.ZERO));
      case "big":
        return T.not(T.eq(v.t, T.ZERO));
      case "undef":
      case "null":
        return T.FALSE;
      case "str":
        if (v.segs?.some((g) => g.num || g.lit)) return T.TRUE;
        return v.lit !== undefined ? T.bool(v.lit !== "") : T.not(T.eq(v.t, strCode("")));
      case "nan":
        return T.FALSE;
      case "dbl":
        return T.not(T.or(T.eq(T.ext(v.t, 0, 63), T.ZERO), this.dblNaN(v)));
      default:
        return T.TRUE;
    }
  }
  cond(v, node) {
    const t = this.truthy(v);
    if (t === T.TRUE) return true;
    if (t === T.FALSE) return false;
    if (this.pure) this.oof(node, "branch in specification");
    return this.X.decide(t, node);
  }
  decide(t, node) {
    if (t === T.TRUE) return true;
    if (t === T.FALSE) return false;
    if (this.pure) this.oof(node, "branch in specification");
    return this.X.decide(t, node);
  }
  // whether t holds on this path (no branch: both answers may be right when it is false)
  entailed(t, node) {
    if (t === T.TRUE) return true;
    if (t === T.FALSE) return false;
    return this.X.entailed(t, node);
  }
  // integer value of a (possibly rational) number, truncated toward zero as ToInteger does
  toInt(v, node) {
    if (v.k === "undef" || v.k === "nan") return T.ZERO;
    if (v.k === "null") return T.ZERO;
    if (v.k === "bool") return T.ite(v.t, T.ONE, T.ZERO);
    if (v.k !== "num") this.oof(node, "ToInteger of " + kindName(v));
    if (!v.d) return v.t;
    const q = T.div(v.t, v.d);
    if (v.t.lo !== null && v.t.lo >= 0n) return q;
    return T.ite(T.ge(v.t, T.ZERO), q, T.neg(T.div(T.neg(v.t), v.d)));
  }
  toInt32(t) {
    if (t.lo !== null && t.hi !== null && t.lo >= -(1n << 31n) && t.hi < 1n << 31n) return t;
    t = this.simp(t);
    if (!this.pure) {
      const [lo, hi] = this.X.ctx.interval(t);
      if (lo !== null && hi !== null && lo >= -(1n << 31n) && hi < 1n << 31n) return t;
    }
    const u = T.ext(t, 0, 32);
    return T.ite(T.ge(u, T.num(1n << 31n)), T.sub(u, T.num(1n << 32n)), u);
  }
  rat(t, d) {
    if (d.op === "num") {
      if (d.c < 0n) return this.rat(T.neg(t), T.num(-d.c));
      // exact division of every coefficient
      const l = T.linParts(t);
      if (l.c % d.c === 0n && [...l.m.values()].every((k) => k % d.c === 0n)) {
        const m = new Map();
        for (const [a, k] of l.m) m.set(a, k / d.c);
        return { k: "num", t: T.fromLin(l.c / d.c, m) };
      }
    }
    return { k: "num", t, d };
  }
  strOf(v, node) {
    if (v.k === "str") return v;
    if (v.k === "num" && v.t.op === "num" && !v.d) return S(String(v.t.c));
    if (v.k === "big" && v.t.op === "num") return S(String(v.t.c));
    if (v.k === "bool" && (v.t === T.TRUE || v.t === T.FALSE)) return S(String(v.t === T.TRUE));
    if (v.k === "undef") return S("undefined");
    if (v.k === "null") return S("null");
    if ((v.k === "num" || v.k === "big") && !v.d) return this.str.fromInt(v.t);
    return { k: "str", t: T.freshVar("str") };
  }
  concatStr(parts, node) {
    if (parts.every((p) => p.lit !== undefined)) return S(parts.map((p) => p.lit).join(""));
    return this.str.make(parts.flatMap((p) => this.str.segsOf(p)));
  }
  dblNaN(v) {
    return T.and(T.eq(T.ext(v.t, 52, 11), T.num(2047)), T.not(T.eq(T.ext(v.t, 0, 52), T.ZERO)));
  }
  strictEq(a, b, node) {
    if (a.k === "opaque" || b.k === "opaque") {
      if (a.k === b.k) return T.eq(a.t, b.t);
      return T.FALSE;
    }
    if (a.k === "dbl" && b.k === "dbl") {
      const zero = (v) => T.eq(T.ext(v.t, 0, 63), T.ZERO);
      return T.or(T.and(T.eq(a.t, b.t), T.not(this.dblNaN(a))), T.and(zero(a), zero(b)));
    }
    if (a.k === "dbl" || b.k === "dbl") {
      if (a.k === "num" || b.k === "num") this.oof(node, "comparison of a double with a number");
      return T.FALSE;
    }
    if (a.k !== b.k) return T.FALSE;
    switch (a.k) {
      case "undef":
      case "null":
        return T.TRUE;
      case "num":
        if (a.d || b.d) return T.eq(T.mul(a.t, b.d ?? T.ONE), T.mul(b.t, a.d ?? T.ONE));
        return T.eq(a.t, b.t);
      case "big":
      case "bool":
        return T.eq(a.t, b.t);
      case "str":
        if (a.lit !== undefined && b.lit !== undefined) return T.bool(a.lit === b.lit);
        return this.str.same(a, b);
      case "nan":
        return T.FALSE;
      case "obj":
        return T.bool(a.o === b.o);
      default:
        return T.bool(a === b || (a.k === "fn" && a.node === b.node && a.scope === b.scope));
    }
  }

  // ---------------- expressions ----------------
  *ev(node, scope, thisV) {
    switch (node.kind) {
      case SK.ParenthesizedExpression:
      case SK.AsExpression:
      case SK.NonNullExpression:
      case SK.SatisfiesExpression:
      case SK.TypeAssertionExpression:
      case SK.ExpressionWithTypeArguments:
        return yield* this.ev(node.expression, scope, thisV);
      case SK.NumericLiteral: {
        const x = Number(node.text);
        if (!Number.isInteger(x)) {
          // exact decimal rational
          const m = /^(\d*)\.?(\d*)$/.exec(node.text);
          if (m) return this.rat(T.num(BigInt(m[1] + m[2])), T.num(10n ** BigInt(m[2].length)));
          this.oof(node, "non-integer literal");
        }
        return N(T.num(BigInt(x)));
      }
      case SK.BigIntLiteral:
        return BIG(T.num(BigInt(node.text.replace(/n$/, "").replace(/_/g, ""))));
      case SK.StringLiteral:
      case SK.NoSubstitutionTemplateLiteral:
        return S(node.text);
      case SK.TrueKeyword:
        return TRUE;
      case SK.FalseKeyword:
        return FALSE;
      case SK.NullKeyword:
        return NULL;
      case SK.ThisKeyword:
        return thisV ?? UNDEF;
      case SK.Identifier:
        if (node.text === "undefined") return UNDEF;
        return yield* this.lookupVar(node.text, scope, node);
      case SK.TemplateExpression: {
        const parts = [S(node.head.text)];
        for (const sp of node.templateSpans) {
          parts.push(this.strOf(yield* this.ev(sp.expression, scope, thisV), node));
          parts.push(S(sp.literal.text));
        }
        return this.concatStr(parts.filter((p) => p.lit !== ""), node);
      }
      case SK.ArrayLiteralExpression: {
        const out = [];
        for (const e of node.elements) {
          if (ts.isSpreadElement(e)) {
            const v = yield* this.ev(e.expression, scope, thisV);
            out.push(...this.elements(v, e));
          } else if (e.kind === SK.OmittedExpression) out.push(UNDEF);
          else out.push(yield* this.ev(e, scope, thisV));
        }
        return this.list(out, node);
      }
      case SK.ObjectLiteralExpression: {
        const o = this.newObj("obj", node);
        for (const p of node.properties) {
          if (ts.isPropertyAssignment(p)) {
            const key = yield* this.propName(p.name, scope, thisV);
            this.setField(o, key, yield* this.ev(p.initializer, scope, thisV));
          } else if (ts.isShorthandPropertyAssignment(p)) this.setField(o, p.name.text, yield* this.ev(p.name, scope, thisV));
          else if (ts.isSpreadAssignment(p)) {
            const v = yield* this.ev(p.expression, scope, thisV);
            if (v.k === "undef" || v.k === "null") continue;
            if (v.k === "bool") continue;
            if (v.k !== "obj") this.oof(p, "spread");
            for (const [k, c] of v.o.fields) this.setField(o, k, c.v);
          } else if (ts.isMethodDeclaration(p)) {
            const key = yield* this.propName(p.name, scope, thisV);
            this.setField(o, key, this.makeFn(p, scope, key));
          } else if (ts.isGetAccessor(p)) {
            (o.getters ??= new Map()).set(yield* this.propName(p.name, scope, thisV), this.makeFn(p, scope, "get"));
          } else this.oof(p, "object member");
        }
        return { k: "obj", o };
      }
      case SK.ArrowFunction:
        return this.makeFn(node, scope, "<anon>", thisV);
      case SK.FunctionExpression:
        return this.makeFn(node, scope, node.name?.text ?? "<anon>");
      case SK.ClassExpression:
        return yield* this.makeClass(node, scope);
      case SK.PropertyAccessExpression:
      case SK.ElementAccessExpression: {
        const r = yield* this.evChain(node, scope, thisV);
        return r.v;
      }
      case SK.CallExpression: {
        const r = yield* this.evChain(node, scope, thisV);
        return r.v;
      }
      case SK.NewExpression: {
        const c = yield* this.ev(node.expression, scope, thisV);
        const args = yield* this.args(node.arguments ?? [], scope, thisV);
        return yield* this.construct(c, args, node);
      }
      case SK.PrefixUnaryExpression:
        return yield* this.prefix(node, scope, thisV);
      case SK.PostfixUnaryExpression: {
        const ref = yield* this.ref(node.operand, scope, thisV);
        const old = yield* this.getRef(ref, node);
        const one = old.k === "big" ? BIG(1) : N(1);
        yield* this.setRef(ref, this.arith(node.operator === SK.PlusPlusToken ? "+" : "-", old, one, node), node);
        return old;
      }
      case SK.BinaryExpression:
        return yield* this.binary(node, scope, thisV);
      case SK.ConditionalExpression: {
        const c = yield* this.ev(node.condition, scope, thisV);
        if (this.pure) {
          const t = this.truthy(c);
          if (t === T.TRUE) return yield* this.ev(node.whenTrue, scope, thisV);
          if (t === T.FALSE) return yield* this.ev(node.whenFalse, scope, thisV);
          const a = yield* this.ev(node.whenTrue, scope, thisV);
          const b = yield* this.ev(node.whenFalse, scope, thisV);
          return this.merge(t, a, b, node);
        }
        return this.cond(c, node.condition) ? yield* this.ev(node.whenTrue, scope, thisV) : yield* this.ev(node.whenFalse, scope, thisV);
      }
      case SK.AwaitExpression: {
        const v = yield* this.ev(node.expression, scope, thisV);
        const st = this.callStack;
        const r = yield { await: v };
        this.callStack = st;
        return r;
      }
      case SK.YieldExpression: {
        if (node.asteriskToken) {
          const it = yield* this.ev(node.expression, scope, thisV);
          const st = this.callStack;
          const r = yield { yieldStar: it };
          this.callStack = st;
          return r;
        }
        const v = node.expression ? yield* this.ev(node.expression, scope, thisV) : UNDEF;
        const st = this.callStack;
        const r = yield { yielded: v };
        this.callStack = st;
        return r;
      }
      case SK.TypeOfExpression: {
        if (ts.isIdentifier(node.expression) && !scope.lookup(node.expression.text) && !this.globalOverrides.has(node.expression.text) && !this.builtins.globals[node.expression.text] && !PRELUDE_NAMES.has(node.expression.text)) {
          const v = yield* this.moduleVar(scope.module, node.expression.text);
          if (!v) return S("undefined");
        }
        const v = yield* this.ev(node.expression, scope, thisV);
        return S({ undef: "undefined", null: "object", bool: "boolean", num: "number", nan: "number", dbl: "number", big: "bigint", str: "string", fn: "function", native: "function", class: "function", bound: "function", sym: "symbol" }[v.k] ?? "object");
      }
      case SK.VoidExpression:
        yield* this.ev(node.expression, scope, thisV);
        return UNDEF;
      case SK.DeleteExpression: {
        const ref = yield* this.ref(node.expression, scope, thisV);
        if (ref.kind !== "prop" || ref.base.k !== "obj" || typeof ref.key !== "string") this.oof(node, "delete");
        const c = ref.base.o.fields.get(ref.key);
        if (c) {
          c.v = { ...UNDEF, deleted: true };
          ref.base.o.fields.delete(ref.key);
        }
        return TRUE;
      }
      case SK.SpreadElement:
        this.oof(node, "spread");
        break;
      case SK.RegularExpressionLiteral:
        return this.regexOf(node.text);
      case SK.MetaProperty:
        return { k: "opaque", type: "meta", t: T.freshVar("meta") };
      default:
        this.oof(node, "expression " + SK[node.kind]);
    }
  }
  *args(nodes, scope, thisV) {
    const out = [];
    for (const a of nodes) {
      if (ts.isSpreadElement(a)) out.push(...this.elements(yield* this.ev(a.expression, scope, thisV), a));
      else out.push(yield* this.ev(a, scope, thisV));
    }
    return out;
  }
  elements(v, node) { // concrete-length iteration
    if (v.k === "obj") {
      const o = v.o;
      if (o.tag === "arr" && o.data.v.list) return o.data.v.list;
      if (o.tag === "arr" && o.data.v.len.op === "num") return Array.from({ length: Number(o.data.v.len.c) }, (_, i) => o.data.v.at(T.num(i)));
      if (o.tag === "bytes" && o.len.op === "num") return Array.from({ length: Number(o.len.c) }, (_, i) => N(this.bytesSel(o)(T.num(i))));
      if (o.tag === "map" && o.entries && !o.base) return o.data.v.filter((e) => !e.deleted).map((e) => this.list([e.key, e.val], node));
      if (o.tag === "set" && !o.base) return o.data.v.filter((e) => !e.deleted).map((e) => e.key);
      if (o.tag === "iter") return o.items;
    }
    if (v.k === "str" && v.lit !== undefined) return [...v.lit].map(S);
    this.oof(node, "iteration of " + kindName(v));
  }
  *propName(n, scope, thisV) {
    if (ts.isIdentifier(n) || ts.isPrivateIdentifier(n) || ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) return n.text;
    if (ts.isNumericLiteral(n)) return String(Number(n.text));
    if (ts.isComputedPropertyName(n)) {
      const v = yield* this.ev(n.expression, scope, thisV);
      return this.keyOf(v, n);
    }
    this.oof(n, "property name");
  }
  keyOf(v, node) {
    if (v.k === "str" && v.lit !== undefined) return v.lit;
    if (v.k === "sym") return "@@" + v.name;
    if (v.k === "num" && v.t.op === "num") return String(v.t.c);
    if (v.k === "big" && v.t.op === "num") return String(v.t.c);
    this.oof(node, "symbolic key " + kindName(v));
  }
  // chains with ?. ; returns {v, base, short}
  *evChain(node, scope, thisV) {
    if (ts.isParenthesizedExpression(node) || ts.isNonNullExpression(node)) {
      if (ts.isNonNullExpression(node)) return yield* this.evChain(node.expression, scope, thisV);
      const e = node.expression;
      if (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e)) {
        const r = yield* this.evChain(e, scope, thisV);
        return { v: r.v, base: r.base };
      }
      return { v: yield* this.ev(e, scope, thisV) };
    }
    if (ts.isPropertyAccessExpression(node) || ts.isElementAccessExpression(node)) {
      if (node.expression.kind === SK.SuperKeyword) {
        let sc = scope;
        while (sc && !sc.home) sc = sc.parent;
        const m = this.findMember(sc?.home?.superV, node.name.text);
        if (!m) this.oof(node, "super member");
        if (m.kind === "getter") return { v: yield* this.call(m.f, thisV, [], node), base: thisV };
        return { v: m.f, base: thisV };
      }
      const b = yield* this.evChain(node.expression, scope, thisV);
      if (b.short) return { v: UNDEF, short: true };
      if (node.questionDotToken && (b.v.k === "undef" || b.v.k === "null")) return { v: UNDEF, short: true };
      const key = ts.isPropertyAccessExpression(node) ? node.name.text : yield* this.ev(node.argumentExpression, scope, thisV);
      return { v: yield* this.getProp(b.v, key, node), base: b.v };
    }
    if (ts.isCallExpression(node)) {
      if (node.expression.kind === SK.SuperKeyword) {
        let sc = scope;
        while (sc && !sc.superCall) sc = sc.parent;
        // find the class whose constructor we are in
        const cls = this.ctorClass(node);
        const args = yield* this.args(node.arguments, scope, thisV);
        const cv = this.classOfNode(thisV.o.cls, cls);
        yield* this.superInit(cv, thisV, args, node);
        yield* this.initFields(cv, thisV);
        return { v: UNDEF };
      }
      if (node.expression.kind === SK.ImportKeyword) this.oof(node, "dynamic import");
      const f = yield* this.evChain(node.expression, scope, thisV);
      if (f.short) return { v: UNDEF, short: true };
      if (node.questionDotToken && (f.v.k === "undef" || f.v.k === "null")) return { v: UNDEF, short: true };
      if (f.v.k === "native" && f.v.special) return { v: yield* f.v.special(this, node, scope, thisV) };
      const args = yield* this.args(node.arguments, scope, thisV);
      return { v: yield* this.call(f.v, f.base ?? UNDEF, args, node) };
    }
    return { v: yield* this.ev(node, scope, thisV) };
  }
  ctorClass(node) {
    let n = node;
    while (n && !ts.isClassLike(n)) n = n.parent;
    return n;
  }
  classOfNode(cls, node) {
    for (let c = cls; c; c = c.superV) if (c.node === node) return c;
    this.oof(node, "class of super()");
  }
  *prefix(node, scope, thisV) {
    const op = node.operator;
    if (op === SK.PlusPlusToken || op === SK.MinusMinusToken) {
      const ref = yield* this.ref(node.operand, scope, thisV);
      const old = yield* this.getRef(ref, node);
      const v = this.arith(op === SK.PlusPlusToken ? "+" : "-", old, old.k === "big" ? BIG(1) : N(1), node);
      yield* this.setRef(ref, v, node);
      return v;
    }
    const v = yield* this.ev(node.operand, scope, thisV);
    switch (op) {
      case SK.ExclamationToken:
        return B(T.not(this.truthy(v)));
      case SK.MinusToken:
        if (v.k === "num") return v.d ? { k: "num", t: T.neg(v.t), d: v.d } : N(T.neg(v.t));
        if (v.k === "big") return BIG(T.neg(v.t));
        break;
      case SK.PlusToken:
        if (v.k === "num") return v;
        break;
      case SK.TildeToken:
        if (v.k === "num") return N(T.sub(T.num(-1n), this.toInt32(this.toInt(v, node))));
        if (v.k === "big") return BIG(T.sub(T.num(-1n), v.t));
        break;
    }
    this.oof(node, "unary on " + kindName(v));
  }
  *binary(node, scope, thisV) {
    const op = node.operatorToken.kind;
    switch (op) {
      case SK.AmpersandAmpersandToken: {
        const a = yield* this.ev(node.left, scope, thisV);
        if (this.pure) {
          const t = this.truthy(a);
          if (t === T.FALSE) return a;
          if (t === T.TRUE) return yield* this.ev(node.right, scope, thisV);
          const b = yield* this.ev(node.right, scope, thisV);
          return B(T.and(t, this.truthy(b)));
        }
        return this.cond(a, node.left) ? yield* this.ev(node.right, scope, thisV) : a;
      }
      case SK.BarBarToken: {
        const a = yield* this.ev(node.left, scope, thisV);
        if (this.pure) {
          const t = this.truthy(a);
          if (t === T.TRUE) return a;
          if (t === T.FALSE) return yield* this.ev(node.right, scope, thisV);
          const b = yield* this.ev(node.right, scope, thisV);
          return B(T.or(t, this.truthy(b)));
        }
        return this.cond(a, node.left) ? a : yield* this.ev(node.right, scope, thisV);
      }
      case SK.QuestionQuestionToken: {
        const a = yield* this.ev(node.left, scope, thisV);
        return a.k === "undef" || a.k === "null" ? yield* this.ev(node.right, scope, thisV) : a;
      }
      case SK.CommaToken:
        yield* this.ev(node.left, scope, thisV);
        return yield* this.ev(node.right, scope, thisV);
      case SK.EqualsToken: {
        if (ts.isArrayLiteralExpression(node.left) || ts.isObjectLiteralExpression(node.left)) {
          const v = yield* this.ev(node.right, scope, thisV);
          yield* this.assignPattern(node.left, v, scope, thisV);
          return v;
        }
        const ref = yield* this.ref(node.left, scope, thisV);
        const v = yield* this.ev(node.right, scope, thisV);
        yield* this.setRef(ref, v, node);
        return v;
      }
      case SK.QuestionQuestionEqualsToken: {
        const ref = yield* this.ref(node.left, scope, thisV);
        const a = yield* this.getRef(ref, node);
        if (a.k !== "undef" && a.k !== "null") return a;
        const v = yield* this.ev(node.right, scope, thisV);
        yield* this.setRef(ref, v, node);
        return v;
      }
      case SK.BarBarEqualsToken:
      case SK.AmpersandAmpersandEqualsToken: {
        const ref = yield* this.ref(node.left, scope, thisV);
        const a = yield* this.getRef(ref, node);
        if (this.cond(a, node.left) === (op === SK.BarBarEqualsToken)) return a;
        const v = yield* this.ev(node.right, scope, thisV);
        yield* this.setRef(ref, v, node);
        return v;
      }
      case SK.InstanceOfKeyword: {
        const a = yield* this.ev(node.left, scope, thisV);
        const c = yield* this.ev(node.right, scope, thisV);
        if (a.k === "opaque" && a.instanceOf) return B(a.instanceOf(c));
        return B(T.bool(this.instanceOf(a, c)));
      }
      case SK.InKeyword: {
        const c = yield* this.ev(node.right, scope, thisV);
        if (ts.isPrivateIdentifier(node.left)) return B(T.bool(c.k === "obj" && c.o.fields.has(node.left.text)));
        const a = yield* this.ev(node.left, scope, thisV);
        if (c.k === "native" && c.name === "globalThis") {
          const nm = this.keyOf(a, node);
          return B(T.bool(this.globalOverrides.has(nm) || this.builtins.globals[nm] !== undefined || PRELUDE_NAMES.has(nm)));
        }
        if (c.k !== "obj") this.oof(node, "in");
        const key = this.keyOf(a, node);
        return B(T.bool(c.o.fields.has(key) || !!(c.o.cls && this.findMember(c.o.cls, key))));
      }
    }
    const assign = ASSIGN.get(op);
    if (assign) {
      const ref = yield* this.ref(node.left, scope, thisV);
      const a = yield* this.getRef(ref, node);
      const b = yield* this.ev(node.right, scope, thisV);
      const v = this.arith(assign, a, b, node);
      yield* this.setRef(ref, v, node);
      return v;
    }
    const a = yield* this.ev(node.left, scope, thisV);
    const b = yield* this.ev(node.right, scope, thisV);
    const o = BINOP.get(op);
    if (!o) this.oof(node, "operator " + SK[op]);
    return this.arith(o, a, b, node);
  }
  arith(op, a, b, node) {
    switch (op) {
      case "===":
      case "!==": {
        const t = this.strictEq(a, b, node);
        return B(op === "===" ? t : T.not(t));
      }
      case "==":
      case "!=": {
        const nul = (v) => v.k === "undef" || v.k === "null";
        let t;
        if (nul(a) || nul(b)) t = T.bool(nul(a) && nul(b));
        else if (a.k === b.k) t = this.strictEq(a, b, node);
        else if ((a.k === "num" && b.k === "big") || (a.k === "big" && b.k === "num")) t = a.d || b.d ? this.oof(node, "==") : T.eq(a.t, b.t);
        else this.oof(node, "loose equality");
        return B(op === "==" ? t : T.not(t));
      }
    }
    if (op === "+" && (a.k === "str" || b.k === "str")) return this.concatStr([this.strOf(a, node), this.strOf(b, node)].filter((p) => p.lit !== ""), node);
    if (["<", "<=", ">", ">="].includes(op)) {
      if (a.k === "undef" || b.k === "undef" || a.k === "nan" || b.k === "nan") return FALSE;
      if (a.k === "null") a = N(0);
      if (b.k === "null") b = N(0);
      if (a.k === "str" && b.k === "str" && a.lit !== undefined && b.lit !== undefined) {
        return B(T.bool(op === "<" ? a.lit < b.lit : op === "<=" ? a.lit <= b.lit : op === ">" ? a.lit > b.lit : a.lit >= b.lit));
      }
      if (a.k === "str" && b.k === "str") {
        const f = T.declFn("strlt", 2, "Bool");
        const l = (x, y) => T.app(f, [x.t, y.t]);
        return B(op === "<" ? l(a, b) : op === ">" ? l(b, a) : op === "<=" ? T.not(l(b, a)) : T.not(l(a, b)));
      }
      const nums = ["num", "big"];
      const numeric = (v, w) => {
        if (v.k !== "str" || v.lit === undefined || !nums.includes(w.k)) return v;
        const x = Number(v.lit);
        return Number.isInteger(x) ? N(BigInt(x)) : Number.isNaN(x) ? { k: "nan" } : v;
      };
      [a, b] = [numeric(a, b), numeric(b, a)];
      if (a.k === "nan" || b.k === "nan") return FALSE;
      if (!nums.includes(a.k) || !nums.includes(b.k)) this.oof(node, `compare ${kindName(a)} ${op} ${kindName(b)}`);
      const x = T.mul(a.t, b.d ?? T.ONE), y = T.mul(b.t, a.d ?? T.ONE);
      return B({ "<": T.lt, "<=": T.le, ">": T.gt, ">=": T.ge }[op](x, y));
    }
    if (a.k === "big" && b.k === "big") return this.bigArith(op, a.t, b.t, node);
    if (a.k === "undef" || b.k === "undef" || a.k === "nan" || b.k === "nan") {
      if ((a.k === "undef" || a.k === "nan" || a.k === "num") && (b.k === "undef" || b.k === "nan" || b.k === "num")) {
        if (["|", "&", "^", "<<", ">>", ">>>"].includes(op)) {
          const z = (v) => v.k === "num" ? v : N(0);
          return this.arith(op, z(a), z(b), node);
        }
        return { k: "nan" };
      }
    }
    if (a.k === "big" && b.k === "num" || a.k === "num" && b.k === "big") this.throwErr("TypeError", "Cannot mix BigInt and other types", node);
    const nb = (v) => v.k === "bool" ? N(T.ite(v.t, T.ONE, T.ZERO)) : v.k === "null" ? N(0) : v;
    a = nb(a);
    b = nb(b);
    if (a.k !== "num" || b.k !== "num") this.oof(node, `${kindName(a)} ${op} ${kindName(b)}`);
    switch (op) {
      case "+":
      case "-": {
        if (a.d || b.d) {
          const ad = a.d ?? T.ONE, bd = b.d ?? T.ONE;
          if (ad === bd) return this.rat(op === "+" ? T.add(a.t, b.t) : T.sub(a.t, b.t), ad);
          return this.rat((op === "+" ? T.add : T.sub)(T.mul(a.t, bd), T.mul(b.t, ad)), T.mul(ad, bd));
        }
        return this.safe(N(op === "+" ? T.add(a.t, b.t) : T.sub(a.t, b.t)), node);
      }
      case "*":
        if (a.d || b.d) return this.rat(T.mul(a.t, b.t), T.mul(a.d ?? T.ONE, b.d ?? T.ONE));
        return this.safe(N(T.mul(a.t, b.t)), node);
      case "/": {
        if (b.d) {
          // a / (p/q) = a*q/p
          return this.arith("/", this.rat(T.mul(a.t, b.d), a.d ?? T.ONE), N(b.t), node);
        }
        if (b.t.op === "num") {
          if (b.t.c === 0n) this.oof(node, "division by zero");
          return this.rat(a.t, T.mul(a.d ?? T.ONE, b.t));
        }
        if (!this.pure && this.decide(T.le(b.t, T.ZERO), node)) {
          if (this.decide(T.eq(b.t, T.ZERO), node)) return { k: "nan" };
          return this.rat(T.neg(a.t), T.mul(a.d ?? T.ONE, T.neg(b.t)));
        }
        return this.rat(a.t, T.mul(a.d ?? T.ONE, b.t));
      }
      case "%":
        if (a.d || b.d) {
          if (!b.d && a.d) {
            const m = this.jsmod(a.t, T.mul(b.t, a.d), node);
            return this.rat(m, a.d);
          }
          this.oof(node, "% on fractions");
        }
        if (b.t.op === "num" && b.t.c === 0n) return { k: "nan" };
        if (b.t.op !== "num" && !this.pure && this.decide(T.eq(b.t, T.ZERO), node)) return { k: "nan" };
        return N(this.jsmod(a.t, b.t, node));
      case "**":
        if (a.t.op === "num" && b.t.op === "num") return N(T.num(a.t.c ** b.t.c));
        if (a.t.op === "num" && a.t.c === 2n) return N(this.pow2(b.t));
        break;
      case "&":
        return N(this.bitop("and", this.toInt(a, node), this.toInt(b, node), 32, node));
      case "|":
        return N(this.bitop("or", this.toInt(a, node), this.toInt(b, node), 32, node));
      case "^":
        return N(this.bitop("xor", this.toInt(a, node), this.toInt(b, node), 32, node));
      case "<<": {
        const x = this.toInt(a, node), y = this.toInt(b, node);
        if (y.op === "num") return N(this.toInt32(T.scale(x, 1n << (y.c & 31n))));
        const e = T.ext(y, 0, 5);
        return N(this.toInt32(T.mul(x, this.pow2(e))));
      }
      case ">>": {
        const x = this.toInt(a, node), y = this.toInt(b, node);
        if (y.op === "num") return N(T.ext(this.toInt32(x), Number(y.c & 31n), null));
        return N(T.div(this.toInt32(x), this.pow2(T.ext(y, 0, 5))));
      }
      case ">>>": {
        const x = this.toInt(a, node), y = this.toInt(b, node);
        if (y.op === "num") return N(T.ext(T.ext(x, 0, 32), Number(y.c & 31n), null));
        return N(T.div(T.ext(x, 0, 32), this.pow2(T.ext(y, 0, 5))));
      }
    }
    this.oof(node, "number operator " + op);
  }
  safe(v, node) {
    const l = (1n << 53n) - 1n;
    if (v.t.lo === null || v.t.hi === null || v.t.lo < -l || v.t.hi > l) this.X.noteUnsafe?.(v.t, node);
    return v;
  }
  jsmod(a, b, node) {
    if (b.op === "num") {
      const m = T.num(b.c < 0n ? -b.c : b.c);
      if (a.lo !== null && a.lo >= 0n) return T.mod(a, m);
      return T.ite(T.ge(a, T.ZERO), T.mod(a, m), T.neg(T.mod(T.neg(a), m)));
    }
    const abs = b.lo !== null && b.lo >= 0n ? b : T.ite(T.ge(b, T.ZERO), b, T.neg(b));
    if (a.lo !== null && a.lo >= 0n) return T.mod(a, abs);
    return T.ite(T.ge(a, T.ZERO), T.mod(a, abs), T.neg(T.mod(T.neg(a), abs)));
  }
  jsdiv(a, b) { // truncating
    if (b.op === "num" && b.c > 0n) {
      if (a.lo !== null && a.lo >= 0n) return T.div(a, b);
      return T.ite(T.ge(a, T.ZERO), T.div(a, b), T.neg(T.div(T.neg(a), b)));
    }
    const abs = b.lo !== null && b.lo >= 0n ? b : T.ite(T.ge(b, T.ZERO), b, T.neg(b));
    const q = a.lo !== null && a.lo >= 0n ? T.div(a, abs) : T.ite(T.ge(a, T.ZERO), T.div(a, abs), T.neg(T.div(T.neg(a), abs)));
    return abs === b ? q : T.ite(T.ge(b, T.ZERO), q, T.neg(q));
  }
  pow2(e) {
    if (e.op === "num") return T.num(1n << e.c);
    const f = T.declFn("pow2", 1, "Int", 1n, null);
    return T.app(f, [e]);
  }
  bigArith(op, a, b, node) {
    switch (op) {
      case "+":
        return BIG(T.add(a, b));
      case "-":
        return BIG(T.sub(a, b));
      case "*":
        return BIG(T.mul(a, b));
      case "/":
        if (this.pure ? false : this.decide(T.eq(b, T.ZERO), node)) this.throwErr("RangeError", "Division by zero", node);
        return BIG(this.jsdiv(a, b));
      case "%":
        if (this.pure ? false : this.decide(T.eq(b, T.ZERO), node)) this.throwErr("RangeError", "Division by zero", node);
        return BIG(this.jsmod(a, b, node));
      case "**":
        if (a.op === "num" && b.op === "num") return BIG(T.num(a.c ** b.c));
        if (a.op === "num" && a.c === 2n) return BIG(this.pow2(b));
        break;
      case "<<":
        if (b.op === "num") return BIG(b.c >= 0n ? T.scale(a, 1n << b.c) : T.ext(a, Number(-b.c), null));
        return BIG(T.mul(a, this.pow2(b)));
      case ">>":
        if (b.op === "num") return BIG(T.ext(a, Number(b.c), null));
        return BIG(T.div(a, this.pow2(b)));
      case "&":
        return BIG(this.bitop("and", a, b, 0, node));
      case "|":
        return BIG(this.bitop("or", a, b, 0, node));
      case "^":
        return BIG(this.bitop("xor", a, b, 0, node));
    }
    this.oof(node, "bigint operator " + op);
  }
  // width 32: operands are converted to int32 first (numbers); width 0: unbounded (bigint)
  bitop(kind, a, b, width, node) {
    if (width === 32) {
      if (a.op === "num" && b.op !== "num") [a, b] = [b, a];
      if (b.op === "num") b = this.toInt32(b);
      if (kind === "and" && b.op === "num" && b.c >= 0n) {
        return this.maskAnd(a, b.c); // bits 0..30 of a do not depend on the int32 wrap
      }
      a = this.toInt32(a);
      b = this.toInt32(b);
    } else if (a.op === "num") [a, b] = [b, a];
    if (a.op === "num" && b.op === "num") return T.num(kind === "and" ? a.c & b.c : kind === "or" ? a.c | b.c : a.c ^ b.c);
    if (kind === "and" && b.op === "num") {
      if (b.c >= 0n) return this.maskAnd(a, b.c);
      return T.sub(a, this.maskAnd(a, ~b.c)); // a & ~m = a - (a & m)
    }
    if (kind === "or" && b.op === "num") {
      if (b.c === 0n) return a;
      if (b.c > 0n) return T.add(T.sub(a, this.maskAnd(a, b.c)), b);
    }
    if (kind === "xor" && b.op === "num" && b.c >= 0n) return T.add(a, T.sub(b, T.scale(this.maskAnd(a, b.c), 2n)));
    if (kind !== "and") {
      const d = this.disjoint(a, b) || this.disjoint(b, a);
      if (d) return T.add(a, b);
    } else if (this.disjoint(a, b) || this.disjoint(b, a)) return T.ZERO;
    if (a === b) return kind === "xor" ? T.ZERO : a;
    const small = (t) => t.lo !== null && t.lo >= 0n && t.hi !== null && t.hi < 1n << 63n;
    if (small(a) && small(b)) return T.bit2(kind, a, b);
    if (width === 32) {
      // two's complement on 32 bits
      const u = (t) => T.ext(t, 0, 32);
      return this.toInt32(T.bit2(kind, u(a), u(b)));
    }
    this.oof(node, "bit operation on wide operands");
  }
  disjoint(hi, lo) {
    if (lo.lo === null || lo.hi === null || lo.lo < 0n) return false;
    const l = T.linParts(hi);
    let z = 4096;
    for (const k of [...l.m.values(), l.c]) {
      if (k === 0n) continue;
      let n = 0, x = k < 0n ? -k : k;
      while (x % 2n === 0n) {
        x /= 2n;
        n++;
      }
      z = Math.min(z, n);
    }
    return lo.hi < (1n << BigInt(z));
  }
  maskAnd(a, m) {
    // sum over the runs of ones of the mask
    let r = T.ZERO, p = 0;
    while (m >> BigInt(p) > 0n) {
      if ((m >> BigInt(p)) % 2n === 0n) {
        p++;
        continue;
      }
      let q = p;
      while ((m >> BigInt(q)) % 2n === 1n) q++;
      r = T.add(r, T.scale(T.ext(a, p, q - p), 1n << BigInt(p)));
      p = q;
    }
    return r;
  }

  // ---------------- references ----------------
  *ref(node, scope, thisV) {
    while (ts.isParenthesizedExpression(node) || ts.isAsExpression(node) || ts.isNonNullExpression(node)) node = node.expression;
    if (ts.isIdentifier(node)) {
      let c = scope.lookup(node.text);
      if (!c) {
        yield* this.lookupVar(node.text, scope, node);
        c = scope.lookup(node.text);
      }
      if (!c) this.oof(node, "assignment to " + node.text);
      return { kind: "var", cell: c };
    }
    if (ts.isPropertyAccessExpression(node)) {
      const base = yield* this.ev(node.expression, scope, thisV);
      return { kind: "prop", base, key: node.name.text, node };
    }
    if (ts.isElementAccessExpression(node)) {
      const base = yield* this.ev(node.expression, scope, thisV);
      const key = yield* this.ev(node.argumentExpression, scope, thisV);
      return { kind: "prop", base, key: key.k === "str" && key.lit !== undefined ? key.lit : key, node };
    }
    this.oof(node, "reference");
  }
  *getRef(ref, node) {
    return ref.kind === "var" ? ref.cell.v : yield* this.getProp(ref.base, ref.key, node);
  }
  *setRef(ref, v, node) {
    if (ref.kind === "var") {
      if (this.pure) this.oof(node, "assignment in specification");
      ref.cell.v = v;
      ref.cell.tdz = false;
    } else yield* this.setProp(ref.base, ref.key, v, node);
  }
  *getProp(b, key, node) {
    if (b.k === "undef" || b.k === "null") this.throwErr("TypeError", "property of " + b.k, node);
    if (b.k === "ns") {
      const v = yield* this.exportOf(b.file, typeof key === "string" ? key : this.keyOf(key, node));
      if (!v) this.oof(node, "namespace member");
      return v;
    }
    if (typeof key !== "string") {
      if (key.k === "str" && key.lit !== undefined) key = key.lit;
      else if (key.k === "sym") key = "@@" + key.name;
    }
    if (typeof key === "string" && (b.k === "fn" || b.k === "bound")) {
      const p = b.props?.get(key);
      if (p) return p.v;
    }
    if (b.k === "obj") {
      const o = b.o;
      if (typeof key === "string") {
        const c = o.fields.get(key);
        if (c) return c.v;
        if (o.getters?.has(key)) return yield* this.call(o.getters.get(key), b, [], node);
        if (o.cls) {
          const m = this.findMember(o.cls, key);
          if (m) return m.kind === "getter" ? yield* this.call(m.f, b, [], node) : m.f;
          if (key === "constructor") return o.cls;
        }
      }
      if (o.tag !== "obj" || typeof key !== "string") {
        const r = yield* this.builtins.getProp(this, b, key, node);
        if (r !== undefined) return r;
      }
      if (typeof key === "string") {
        const pr = this.builtins.objectProto?.(this, b, key, node);
        if (pr) return pr;
        if (o.opaqueFields) return o.opaqueFields(key, node);
        return UNDEF;
      }
      // numeric/other key on a plain object
      if ((key.k === "num" && key.t.op !== "num" && !key.d) || (key.k === "str" && key.lit === undefined)) {
        // a key that is not known: one of the object's own, or none of them
        const own = [...o.fields].filter(([k]) => key.k === "str" ? !k.startsWith("@@") && !k.startsWith("#") : /^(0|-?[1-9]\d*)$/.test(k));
        const is = own.map(([k]) => key.k === "str" ? T.eq(key.t, strCode(k)) : T.eq(key.t, T.num(BigInt(k))));
        if (own.length > 8 && !this.decide(T.or(...is), node)) return UNDEF;
        for (const [i, [, c]] of own.entries()) if (this.decide(is[i], node)) return c.v;
        return UNDEF;
      }
      const ks = this.keyOf(key, node);
      return o.fields.get(ks)?.v ?? UNDEF;
    }
    if (b.k === "class") {
      const ks = typeof key === "string" ? key : this.keyOf(key, node);
      for (let c = b; c; c = c.superV) {
        if (c.k !== "class") break;
        if (c.statics?.has(ks)) return c.statics.get(ks).v;
        if (c.sgetters?.has(ks)) return yield* this.call(c.sgetters.get(ks), b, [], node);
      }
      if (ks === "name") return S(b.name);
      this.oof(node, "static " + ks);
    }
    if (b.k === "native") {
      const ks = typeof key === "string" ? key : this.keyOf(key, node);
      const v = b.statics?.[ks];
      if (v) return v;
      const r = yield* this.builtins.getProp(this, b, key, node);
      if (r !== undefined) return r;
      this.oof(node, `${b.name}.${ks}`);
    }
    const r = yield* this.builtins.getProp(this, b, key, node);
    if (r !== undefined) return r;
    this.oof(node, `property ${typeof key === "string" ? key : kindName(key)} of ${kindName(b)}`);
  }
  *setProp(b, key, v, node) {
    if (this.pure) this.oof(node, "assignment in specification");
    if (b.k === "undef" || b.k === "null") this.throwErr("TypeError", "set property of " + b.k, node);
    if ((b.k === "fn" || b.k === "bound") && typeof key === "string") {
      (b.props ??= new Map()).set(key, this.cell(b.name + "." + key, v));
      return;
    }
    if (b.k === "class") {
      const ks = typeof key === "string" ? key : this.keyOf(key, node);
      const c = b.statics.get(ks);
      if (c) c.v = v;
      else b.statics.set(ks, this.cell(b.name + "::" + ks, v));
      return;
    }
    if (b.k === "native" && b.statics && typeof key === "string") {
      b.statics[key] = v; // (the built-in objects are made anew for each path)
      return;
    }
    if (b.k !== "obj") this.oof(node, "set property on " + kindName(b));
    if (typeof key !== "string") {
      if (key.k === "str" && key.lit !== undefined) key = key.lit;
      else if (key.k === "sym") key = "@@" + key.name;
    }
    const o = b.o;
    if (typeof key === "string" && o.cls) {
      if (!o.fields.has(key)) {
        const s = this.findSetter(o.cls, key);
        if (s) {
          yield* this.call(s, b, [v], node);
          return;
        }
        const g = this.findMember(o.cls, key);
        if (g?.kind === "getter") this.throwErr("TypeError", "getter only", node);
      }
    }
    if (o.tag !== "obj" || typeof key !== "string") {
      if (yield* this.builtins.setProp(this, b, key, v, node)) return;
    }
    this.setField(o, typeof key === "string" ? key : this.keyOf(key, node), v);
  }
  *bind(name, v, scope, declare) {
    if (ts.isIdentifier(name)) {
      const c = this.cell(scope.fn + ":" + name.text + "/" + this.callStack.map((f) => f.site).join(">"), v);
      c.local = name.text;
      scope.vars.set(name.text, c);
      return;
    }
    if (ts.isArrayBindingPattern(name)) {
      let i = 0;
      let items = null;
      for (const e of name.elements) {
        if (e.kind === SK.OmittedExpression) {
          i++;
          continue;
        }
        if (e.dotDotDotToken) {
          yield* this.bind(e.name, this.list(this.elements(v, e).slice(i), e), scope, true);
          break;
        }
        let x;
        if (v.k === "obj" && (v.o.tag === "arr" || v.o.tag === "bytes")) x = yield* this.getProp(v, N(i), e);
        else {
          items ??= this.elements(v, e);
          x = items[i] ?? UNDEF;
        }
        if (e.initializer && x.k === "undef") x = yield* this.ev(e.initializer, scope, this.thisOf(scope));
        yield* this.bind(e.name, x, scope, true);
        i++;
      }
      return;
    }
    const used = new Set();
    for (const e of name.elements) {
      if (e.dotDotDotToken) {
        const o = this.newObj("obj", e);
        if (v.k !== "obj") this.oof(e, "object rest");
        for (const [k, c] of v.o.fields) if (!used.has(k)) this.setField(o, k, c.v);
        yield* this.bind(e.name, { k: "obj", o }, scope, true);
        continue;
      }
      const key = e.propertyName ? yield* this.propName(e.propertyName, scope) : e.name.text;
      used.add(key);
      let x = yield* this.getProp(v, key, e);
      if (e.initializer && x.k === "undef") x = yield* this.ev(e.initializer, scope, this.thisOf(scope));
      yield* this.bind(e.name, x, scope, true);
    }
  }
  thisOf(scope) {
    for (let s = scope; s; s = s.parent) if (s.isFn && s.thisV !== undefined) return s.thisV;
    return undefined;
  }
  *assignPattern(node, v, scope, thisV) {
    if (ts.isArrayLiteralExpression(node)) {
      const items = this.elements(v, node);
      for (let i = 0; i < node.elements.length; i++) {
        const e = node.elements[i];
        if (e.kind === SK.OmittedExpression) continue;
        const ref = yield* this.ref(e, scope, thisV);
        yield* this.setRef(ref, items[i] ?? UNDEF, e);
      }
      return;
    }
    for (const p of node.properties) {
      if (ts.isShorthandPropertyAssignment(p)) {
        const ref = yield* this.ref(p.name, scope, thisV);
        yield* this.setRef(ref, yield* this.getProp(v, p.name.text, p), p);
      } else if (ts.isPropertyAssignment(p)) {
        const ref = yield* this.ref(p.initializer, scope, thisV);
        yield* this.setRef(ref, yield* this.getProp(v, yield* this.propName(p.name, scope), p), p);
      } else this.oof(p, "pattern");
    }
  }

  // ---------------- statements ----------------
  *block(stmts, scope, thisV) {
    // hoist function declarations
    for (const s of stmts) {
      if (ts.isFunctionDeclaration(s) && s.body) scope.vars.set(s.name.text, this.cell(scope.fn + ":" + s.name.text, this.makeFn(s, scope, s.name.text)));
    }
    for (const s of stmts) yield* this.stmt(s, scope, thisV);
  }
  *stmt(node, scope, thisV) {
    if (++this.steps > (this.opts.maxUnroll >= 1000000 ? 20000000 : 400000)) this.oof(node, "step budget");
    switch (node.kind) {
      case SK.ExpressionStatement:
        yield* this.ev(node.expression, scope, thisV);
        return;
      case SK.VariableStatement:
        yield* this.varDecls(node.declarationList, scope, thisV);
        return;
      case SK.Block:
        yield* this.block(node.statements, new Scope(scope), thisV);
        return;
      case SK.EmptyStatement:
      case SK.FunctionDeclaration:
      case SK.InterfaceDeclaration:
      case SK.TypeAliasDeclaration:
        return;
      case SK.ClassDeclaration:
        scope.vars.set(node.name.text, this.cell(node.name.text, yield* this.makeClass(node, scope)));
        return;
      case SK.IfStatement: {
        const c = yield* this.ev(node.expression, scope, thisV);
        if (this.cond(c, node.expression)) yield* this.stmt(node.thenStatement, new Scope(scope), thisV);
        else if (node.elseStatement) yield* this.stmt(node.elseStatement, new Scope(scope), thisV);
        return;
      }
      case SK.ReturnStatement:
        throw new ReturnEx(node.expression ? yield* this.ev(node.expression, scope, thisV) : UNDEF);
      case SK.ThrowStatement:
        throw new JSThrow(yield* this.ev(node.expression, scope, thisV));
      case SK.BreakStatement:
        throw new BreakEx(node.label?.text);
      case SK.ContinueStatement:
        throw new ContinueEx(node.label?.text);
      case SK.LabeledStatement: {
        node.statement.__label = node.label.text;
        try {
          yield* this.stmt(node.statement, scope, thisV);
        } catch (e) {
          if (!(e instanceof BreakEx && e.label === node.label.text)) throw e;
        }
        return;
      }
      case SK.TryStatement:
        yield* this.tryStmt(node, scope, thisV);
        return;
      case SK.SwitchStatement:
        yield* this.switchStmt(node, scope, thisV);
        return;
      case SK.WhileStatement:
        yield* this.loop(node, scope, thisV, { cond: node.expression, body: node.statement });
        return;
      case SK.DoStatement:
        yield* this.loop(node, scope, thisV, { cond: node.expression, body: node.statement, post: true });
        return;
      case SK.ForStatement: {
        const s = new Scope(scope);
        if (node.initializer) {
          if (ts.isVariableDeclarationList(node.initializer)) yield* this.varDecls(node.initializer, s, thisV);
          else yield* this.ev(node.initializer, s, thisV);
        }
        const perIter = node.initializer && ts.isVariableDeclarationList(node.initializer) && (node.initializer.flags & ts.NodeFlags.Let);
        yield* this.loop(node, s, thisV, { cond: node.condition, body: node.statement, inc: node.incrementor, perIter });
        return;
      }
      case SK.ForOfStatement:
        yield* this.forOf(node, scope, thisV);
        return;
      case SK.ForInStatement: {
        const v = yield* this.ev(node.expression, scope, thisV);
        if (v.k !== "obj" || v.o.tag !== "obj") this.oof(node, "for-in");
        for (const k of [...v.o.fields.keys()]) {
          const s = new Scope(scope);
          yield* this.bind(node.initializer.declarations[0].name, S(k), s, true);
          if ((yield* this.iterBody(node, node.statement, s, thisV)) === "break") break;
        }
        return;
      }
      default:
        this.oof(node, "statement " + SK[node.kind]);
    }
  }
  *varDecls(list, scope, thisV) {
    for (const d of list.declarations) {
      if (!d.initializer && !ts.isIdentifier(d.name)) this.oof(d, "pattern without initializer");
      let v = UNDEF;
      if (d.initializer) v = yield* this.ev(d.initializer, scope, thisV);
      if (v.k === "fn" && v.name === "<anon>" && ts.isIdentifier(d.name)) v.name = d.name.text;
      yield* this.bind(d.name, v, scope, true);
    }
  }
  *tryStmt(node, scope, thisV) {
    let pending = null;
    const stack = this.callStack;
    try {
      yield* this.block(node.tryBlock.statements, new Scope(scope), thisV);
    } catch (e) {
      if (e instanceof JSThrow && node.catchClause) {
        this.callStack = stack;
        const s = new Scope(scope);
        try {
          if (node.catchClause.variableDeclaration) yield* this.bind(node.catchClause.variableDeclaration.name, e.v, s, true);
          yield* this.block(node.catchClause.block.statements, s, thisV);
        } catch (e2) {
          pending = e2;
        }
      } else pending = e;
    }
    if (node.finallyBlock && (pending === null || pending instanceof JSThrow || pending instanceof ReturnEx || pending instanceof BreakEx || pending instanceof ContinueEx)) {
      this.callStack = stack;
      yield* this.block(node.finallyBlock.statements, new Scope(scope), thisV);
    }
    if (pending) throw pending;
  }
  *switchStmt(node, scope, thisV) {
    const v = yield* this.ev(node.expression, scope, thisV);
    const s = new Scope(scope);
    const cls = node.caseBlock.clauses;
    let start = -1;
    for (let i = 0; i < cls.length; i++) {
      if (cls[i].kind === SK.CaseClause) {
        const c = yield* this.ev(cls[i].expression, s, thisV);
        if (this.decide(this.strictEq(v, c, cls[i]), cls[i])) {
          start = i;
          break;
        }
      }
    }
    if (start < 0) start = cls.findIndex((c) => c.kind === SK.DefaultClause);
    if (start < 0) return;
    try {
      for (let i = start; i < cls.length; i++) for (const st of cls[i].statements) yield* this.stmt(st, s, thisV);
    } catch (e) {
      if (!(e instanceof BreakEx && !e.label)) throw e;
    }
  }
  *iterBody(node, body, scope, thisV) {
    try {
      yield* this.stmt(body, scope, thisV);
    } catch (e) {
      if (e instanceof BreakEx && (!e.label || e.label === node.__label)) return "break";
      if (e instanceof ContinueEx && (!e.label || e.label === node.__label)) return "next";
      throw e;
    }
    return "next";
  }
  loopKey(node) {
    return posId(node) + "/" + this.callStack.map((f) => f.site).join(">");
  }
  *loop(node, scope, thisV, L) {
    if (this.pure) this.oof(node, "loop in specification");
    const key = this.loopKey(node);
    const mode = this.X.loopMode(key);
    if (mode === "cut") {
      yield* this.cutLoop(node, scope, thisV, L, key);
      return;
    }
    // unroll while the condition is decided by simplification alone
    let n = 0;
    let first = L.post;
    for (;;) {
      if (!first) {
        if (L.cond) {
          const before = this.X.decisions();
          const c = yield* this.ev(L.cond, scope, thisV);
          const t = this.truthy(c);
          if (this.opts.unroll) {
            // bounded lemma: the loop's test is a path decision
            if (!this.decide(t, L.cond)) break;
          } else {
            if (this.X.decisions() !== before || (t !== T.TRUE && t !== T.FALSE)) this.X.setCut(key, node); // restarts
            if (t === T.FALSE) break;
          }
        } else if (n > 64 && !this.opts.unroll) this.X.setCut(key, node);
      }
      first = false;
      if (++n > (this.opts.unroll ?? this.opts.maxUnroll ?? 80)) {
        if (this.opts.unroll) this.oof(node, "unrolling bound");
        this.X.setCut(key, node);
      }
      if (n > 1 && this.opts.cutForever && (!L.cond || L.cond.kind === SK.TrueKeyword)) this.X.setCut(key, node);
      const s = L.perIter ? this.copyScope(scope) : scope;
      if ((yield* this.iterBody(node, L.body, s, thisV)) === "break") {
        if (L.perIter) this.copyBack(s, scope);
        break;
      }
      if (L.perIter) this.copyBack(s, scope);
      if (L.inc) yield* this.ev(L.inc, scope, thisV);
    }
  }
  copyScope(scope) {
    const s = new Scope(scope.parent, scope.module);
    s.fn = scope.fn;
    for (const [k, c] of scope.vars) {
      const n = this.cell(c.name, c.v);
      n.local = c.local;
      s.vars.set(k, n);
    }
    return s;
  }
  copyBack(s, scope) {
    for (const [k, c] of scope.vars) c.v = s.vars.get(k).v;
  }
  *cutLoop(node, scope, thisV, L, key) {
    const X = this.X;
    // do-while: the body runs at least once; treat as loop whose first test is skipped
    yield* X.loopHead(this, key, node, scope, thisV); // check entry, havoc, assume
    const snap = X.snapshot(this);
    let go = true;
    if (!L.post && L.cond) go = this.cond(yield* this.ev(L.cond, scope, thisV), L.cond);
    if (!go) return;
    const s = scope;
    if ((yield* this.iterBody(node, L.body, s, thisV)) === "break") return;
    if (L.inc) yield* this.ev(L.inc, scope, thisV);
    if (L.post) {
      if (!this.cond(yield* this.ev(L.cond, scope, thisV), L.cond)) return;
    }
    yield* X.loopTail(this, key, node, scope, thisV, snap);
    throw new PathEnd("loop");
  }
  *forOf(node, scope, thisV) {
    let v = yield* this.ev(node.expression, scope, thisV);
    const decl = ts.isVariableDeclarationList(node.initializer) ? node.initializer.declarations[0].name : null;
    if ((node.awaitModifier && v.k === "obj") || (v.k === "obj" && (v.o.tag === "gen" || v.o.fields.has("next") || (v.o.cls && (this.findMember(v.o.cls, "@@asyncIterator") || this.findMember(v.o.cls, "@@iterator")))))) {
      yield* this.forOfIter(node, scope, thisV, v, decl);
      return;
    }
    let items = null;
    try {
      items = this.elements(v, node);
    } catch (e) {
      if (!(e instanceof OutOfFragment)) throw e;
    }
    const bindIt = function* (x, s) {
      if (decl) yield* this.bind(decl, x, s, true);
      else yield* this.setRef(yield* this.ref(node.initializer, s, thisV), x, node);
    }.bind(this);
    if (items) {
      // a live array can grow while it is iterated
      const live = v.k === "obj" && v.o.tag === "arr";
      for (let i = 0; i < (live && v.o.data.v.list ? v.o.data.v.list.length : items.length); i++) {
        const s = new Scope(scope);
        yield* bindIt(live && v.o.data.v.list ? v.o.data.v.list[i] : items[i], s);
        if ((yield* this.iterBody(node, node.statement, s, thisV)) === "break") break;
      }
      return;
    }
    if (v.k !== "obj" || !["arr", "bytes"].includes(v.o.tag)) this.oof(node, "for-of over " + kindName(v));
    if (this.opts.unroll) {
      const len = v.o.tag === "bytes" ? v.o.len : v.o.data.v.len;
      for (let i = 0; this.decide(T.lt(T.num(i), len), node); i++) {
        if (i >= this.opts.unroll) this.oof(node, "unrolling bound");
        const x = v.o.tag === "bytes" ? N(this.bytesSel(v.o)(T.num(i))) : v.o.data.v.at(T.num(i));
        const bs = new Scope(scope);
        yield* bindIt(x, bs);
        if ((yield* this.iterBody(node, node.statement, bs, thisV)) === "break") return;
      }
      return;
    }
    // hidden index
    const s = new Scope(scope);
    const idx = this.cell(scope.fn + ":$i/" + this.loopKey(node), N(0));
    idx.local = "$i";
    s.vars.set("$i", idx);
    const key = this.loopKey(node);
    const X = this.X;
    if (X.loopMode(key) !== "cut") X.setCut(key, node);
    yield* X.loopHead(this, key, node, s, thisV);
    const snap = X.snapshot(this);
    const len = v.o.tag === "bytes" ? v.o.len : v.o.data.v.len ?? T.num(v.o.data.v.list.length);
    if (!this.decide(T.and(T.ge(idx.v.t, T.ZERO), T.lt(idx.v.t, len)), node)) return;
    const x = v.o.tag === "bytes" ? N(this.bytesSel(v.o)(idx.v.t)) : v.o.data.v.at(idx.v.t);
    const bs = new Scope(s);
    yield* bindIt(x, bs);
    idx.v = N(T.add(idx.v.t, T.ONE));
    if ((yield* this.iterBody(node, node.statement, bs, thisV)) === "break") return;
    yield* X.loopTail(this, key, node, s, thisV, snap);
    throw new PathEnd("loop");
  }
  *forOfIter(node, scope, thisV, v, decl) {
    // iterator protocol; the iteration count must be decided by the iterator on this path
    let it = v;
    const nextOf = function* (x) {
      return yield* this.getProp(x, "next", node);
    }.bind(this);
    if (!(v.o.tag === "gen" || v.o.fields.has("next"))) {
      const m = v.o.cls && (this.findMember(v.o.cls, "@@asyncIterator") ?? this.findMember(v.o.cls, "@@iterator"));
      if (!m) {
        // for await over a built-in list: each element is awaited
        for (const x of this.elements(v, node)) {
          const st = this.callStack;
          const y = yield { await: x };
          this.callStack = st;
          const s = new Scope(scope);
          if (decl) yield* this.bind(decl, y, s, true);
          else yield* this.setRef(yield* this.ref(node.initializer, s, thisV), y, node);
          if ((yield* this.iterBody(node, node.statement, s, thisV)) === "break") break;
        }
        return;
      }
      it = yield* this.call(m.f, v, [], node);
    }
    const limit = this.opts.maxUnroll ?? 80;
    for (let n = 0;; n++) {
      if (n > limit) this.oof(node, "iterator unrolling limit");
      let r = yield* this.call(yield* nextOf(it), it, [], node);
      if (node.awaitModifier) {
        const st = this.callStack;
        r = yield { await: r };
        this.callStack = st;
      }
      const done = yield* this.getProp(r, "done", node);
      if (this.cond(done, node)) return;
      let x = yield* this.getProp(r, "value", node);
      const s = new Scope(scope);
      if (decl) yield* this.bind(decl, x, s, true);
      else yield* this.setRef(yield* this.ref(node.initializer, s, thisV), x, node);
      if ((yield* this.iterBody(node, node.statement, s, thisV)) === "break") return;
    }
  }
}
const BINOP = new Map([
  [SK.PlusToken, "+"], [SK.MinusToken, "-"], [SK.AsteriskToken, "*"], [SK.SlashToken, "/"], [SK.PercentToken, "%"], [SK.AsteriskAsteriskToken, "**"],
  [SK.AmpersandToken, "&"], [SK.BarToken, "|"], [SK.CaretToken, "^"], [SK.LessThanLessThanToken, "<<"], [SK.GreaterThanGreaterThanToken, ">>"], [SK.GreaterThanGreaterThanGreaterThanToken, ">>>"],
  [SK.LessThanToken, "<"], [SK.LessThanEqualsToken, "<="], [SK.GreaterThanToken, ">"], [SK.GreaterThanEqualsToken, ">="],
  [SK.EqualsEqualsEqualsToken, "==="], [SK.ExclamationEqualsEqualsToken, "!=="], [SK.EqualsEqualsToken, "=="], [SK.ExclamationEqualsToken, "!="],
]);
const ASSIGN = new Map([
  [SK.PlusEqualsToken, "+"], [SK.MinusEqualsToken, "-"], [SK.AsteriskEqualsToken, "*"], [SK.SlashEqualsToken, "/"], [SK.PercentEqualsToken, "%"], [SK.AsteriskAsteriskEqualsToken, "**"],
  [SK.AmpersandEqualsToken, "&"], [SK.BarEqualsToken, "|"], [SK.CaretEqualsToken, "^"], [SK.LessThanLessThanEqualsToken, "<<"], [SK.GreaterThanGreaterThanEqualsToken, ">>"], [SK.GreaterThanGreaterThanGreaterThanEqualsToken, ">>>"],
]);
