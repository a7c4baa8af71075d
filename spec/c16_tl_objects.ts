// C16: an object of a TL schema comes back from its encoding as it went in, whatever its fields hold, and nothing else is consumed.
import * as G from "./ghost.ts";
import { TLWriter } from "file:///repo/tl/1_tl_writer.ts";
import { TLReader } from "file:///repo/tl/1_tl_reader.ts";
import { TLError } from "file:///repo/0_errors.ts";
import { schema as telegram } from "file:///repo/tl/1_telegram_api.ts";
import { schema as mtproto } from "file:///repo/tl/1_mtproto_api.ts";
import { schema as secret } from "file:///repo/tl/1_secret_chats_api.ts";

// ---- values of a type; the oracle of this contract: what has to come back ----
const PRIMITIVES = ["bytes", "int128", "int256", "long", "Bool", "int", "double", "string"];
const LEAF = 0x11223344, PAIR = 0xA0B0C0D0, OTHER = 0x80000001, EMPTY = 0x7FFFFFFF;
// a schema with one constructor under test and a few for its fields
function schemaOf(fields: [string, string][], id = 0xFEDCBA98, type = "Subject"): any {
  const definitions: any = {
    leaf: [LEAF, [["n", "int"]], "Leaf"],
    pair: [PAIR, [["a", "long"], ["flags", "#"], ["b", "flags.3?leaf"], ["c", "flags.3?int"]], "Tree"],
    other: [OTHER, [["s", "bytes"]], "Tree"],
    empty: [EMPTY, [], "Tree"],
    subject: [id, fields, type],
  };
  const identifierToName: any = { [LEAF]: "leaf", [PAIR]: "pair", [OTHER]: "other", [EMPTY]: "empty", [id]: "subject" };
  return { definitions, identifierToName };
}
const inner = (t: string) => t.slice(t.indexOf("<") + 1, -1);
function value(t: string, max = 1 << 20): any {
  switch (t) {
    case "bytes":
      return G.bytes(0, max);
    case "int128":
      return G.big(-(1n << 127n), (1n << 127n) - 1n);
    case "int256":
      return G.big(-(1n << 255n), (1n << 255n) - 1n);
    case "long":
      return G.big(-(1n << 63n), (1n << 63n) - 1n);
    case "Bool":
      return G.bool();
    case "int":
      return G.int(-2147483648, 2147483647);
    case "double":
      return G.double();
    case "string":
      return G.str(max);
    case "true":
      return true;
    case "leaf":
    case "Leaf":
      return { _: "leaf", n: G.int(-2147483648, 2147483647) };
    case "empty":
      return { _: "empty" };
    case "other":
      return { _: "other", s: G.bytes(0, Math.min(max, 300)) };
    case "Tree":
      return [() => value("pair", max), () => value("other", max), () => value("empty")][G.choose(3)]();
    case "pair": {
      const r: any = { _: "pair", a: value("long") };
      if (G.choose(2) === 1) {
        r.b = value("leaf", max);
        r.c = value("int");
      }
      return r;
    }
  }
  const n = G.choose(3), l: any[] = [];
  for (let i = 0; i < n; i++) l.push(value(inner(t), max));
  return l;
}
function same(a: any, b: any): boolean {
  if (b instanceof Uint8Array) return a instanceof Uint8Array && G.eqBytes(a, b);
  if (Array.isArray(b)) {
    if (!Array.isArray(a) || a.length !== b.length) return false;
    for (let i = 0; i < b.length; i++) if (!same(a[i], b[i])) return false;
    return true;
  }
  if (typeof b === "object") {
    if (typeof a !== "object" || a === null) return false;
    const ka = Object.keys(a), kb = Object.keys(b);
    if (ka.length !== kb.length) return false;
    for (const k of kb) if (!(k in a) || !same(a[k], b[k])) return false;
    return true;
  }
  return G.same(a, b);
}
function roundtrip(o: any, schema: any, name: string, before: Uint8Array, after: Uint8Array) {
  const w = new TLWriter();
  w.write(before);
  w.writeObject(o, schema);
  w.write(after);
  const whole = w.buffer;
  const r = new TLReader(whole);
  r.readView(before.length);
  const o2 = r.readType(name, schema);
  G.assert(same(o2, o), "an object comes back as it went in");
  G.assert(G.eqBytes(r.buffer, after), "reading an object consumes exactly its encoding");
  G.assert(G.eqRange(whole, 0, before, 0, before.length), "what was written before stays");
}
const KINDS = [...PRIMITIVES, "leaf", "Leaf", "Tree"];
const names = ["X", "Subject", "subject"];

export function required_field() {
  const t = KINDS[G.choose(KINDS.length)];
  const schema = schemaOf([["f", t]]);
  const before = G.bytes(0, 64), after = G.bytes(0, 64);
  roundtrip({ _: "subject", f: value(t) }, schema, names[G.choose(3)], before, after);
}
export function vectors() {
  const bare = G.choose(2) === 1;
  const item = [...KINDS.slice(0, 10), "Vector<int>", "vector<leaf>"][G.choose(12)];
  const t = (bare ? "vector<" : "Vector<") + item + ">";
  const after = G.bytes(0, 16);
  roundtrip({ _: "subject", f: value(t), g: value("int") }, schemaOf([["f", t], ["g", "int"]]), "X", new Uint8Array(0), after);
}
// a function that wraps another one is followed by the encoding of that one
export function wrapped_functions() {
  const schema = schemaOf([["n", "int"], ["query", "!X"]], 0xFEDCBA98, "X");
  const query = value("Tree"), n = value("int");
  const q = new TLWriter().writeObject(query, schema).buffer;
  const b = new TLWriter().writeObject({ _: "subject", n, query }, schema).buffer;
  const r = new TLReader(b);
  G.assert(r.readInt32(false) === 0xFEDCBA98 && r.readInt32() === n, "a wrapping function is written first");
  G.assert(G.eqBytes(r.buffer, q), "the wrapped function follows");
}
// optional fields: each combination of presence, of one or two sets of flags and of any bits
export function optional_fields() {
  const bits = [[0, 1, 2], [31, 0, 30], [15, 16, 31], [7, 7, 8]][G.choose(4)];
  const two = G.choose(2) === 1;
  const q = two ? "flags2" : "flags";
  const kinds = [["int", "true", "bytes"], ["true", "Vector<int>", "Tree"], ["string", "leaf", "Bool"]][G.choose(3)];
  const fields: [string, string][] = [["flags", "#"], ["first", "long"], ["a", `flags.${bits[0]}?${kinds[0]}`], ["b", `flags.${bits[1]}?${kinds[1]}`]];
  if (two) fields.push(["flags2", "#"]);
  fields.push(["c", `${q}.${bits[2]}?${kinds[2]}`], ["last", "int"]);
  const o: any = { _: "subject", first: value("long") };
  const a = G.choose(2) === 1;
  const b = bits[0] === bits[1] ? a : G.choose(2) === 1;
  const c = G.choose(2) === 1;
  if (a) o.a = value(kinds[0], 8);
  if (b) o.b = value(kinds[1], 8);
  if (c) o.c = value(kinds[2], 8);
  o.last = value("int");
  roundtrip(o, schemaOf(fields), "X", new Uint8Array(0), G.bytes(0, 8));
}
// fields are read in the order in which they are written
export function field_order() {
  const ts = [0, 1, 2].map(() => ["int", "bytes", "Leaf", "long"][G.choose(4)]);
  const fields: [string, string][] = ts.map((t, i) => ["xyz"[i], t]);
  const v = ts.map((t) => value(t, 8));
  // the order of the properties of the object does not matter
  const o: any = { _: "subject" };
  for (const i of [[0, 1, 2], [2, 0, 1]][G.choose(2)]) o["xyz"[i]] = v[i];
  roundtrip(o, schemaOf(fields), "X", new Uint8Array(0), G.bytes(0, 8));
}
function refused(f: () => void, name: string) {
  let e: any = null;
  try {
    f();
  } catch (e_) {
    e = e_;
  }
  G.assert(e instanceof TLError, name);
}
export function bad_objects_refused() {
  const t = KINDS[G.choose(8)];
  const schema = schemaOf([["flags", "#"], ["f", t], ["o", "flags.0?Tree"], ["p", "flags.0?int"]]);
  const write = (o: any) => new TLWriter().writeObject(o, schema);
  refused(() => write({ _: "subject" }), "a missing field is refused");
  refused(() => write({ _: "subject", f: value(t), o: { _: "empty" } }), "a missing field that the flags announce is refused");
  refused(() => write({ _: "subject", f: value(t), o: value("leaf"), p: 1 }), "an object of another type is refused");
  refused(() => write({ _: "nothing" }), "an unknown constructor is refused");
  const wrong: any = { bytes: 1, int128: 1, int256: 1, long: 1, Bool: 1, int: 1n, double: 1n };
  if (t !== "string") refused(() => write({ _: "subject", f: wrong[t] }), "a value of another type is refused");
  if (t === "int") refused(() => write({ _: "subject", f: G.choose(2) === 0 ? G.int(2147483648) : -G.int(2147483649) }), "an integer out of range is refused");
  if (t === "long") refused(() => write({ _: "subject", f: G.choose(2) === 0 ? G.big(1n << 63n, 1n << 70n) : G.big(-(1n << 70n), -(1n << 63n) - 1n) }), "a long out of range is refused");
}
export function bad_encodings_refused() {
  const schema = schemaOf([["f", "Vector<int>"], ["b", "Bool"], ["t", "Tree"]]);
  const words = (l: number[]) => {
    const w = new TLWriter();
    for (const x of l) w.writeInt32(x, false);
    return new TLReader(w.buffer);
  };
  const id = G.int(0, 4294967295);
  const rest = [0x997275B5, EMPTY];
  const which = G.choose(5);
  if (which === 0) {
    for (const k of [LEAF, PAIR, OTHER, EMPTY, 0xFEDCBA98, 0x997275B5, 0xBC799737]) G.assume(id !== k);
    refused(() => words([id, 0x1CB5C415, 0, ...rest]).readType("X", schema), "an unknown identifier is refused");
  } else if (which === 1) {
    G.assume(id !== 0xFEDCBA98);
    refused(() => words([id, 0x1CB5C415, 0, ...rest]).readType("subject", schema), "another identifier is refused");
  } else if (which === 2) {
    G.assume(id !== 0x1CB5C415);
    refused(() => words([0xFEDCBA98, id, 0, ...rest]).readType("X", schema), "something else than a vector is refused");
  } else if (which === 3) {
    G.assume(id !== 0x997275B5);
    G.assume(id !== 0xBC799737);
    refused(() => words([0xFEDCBA98, 0x1CB5C415, 0, id, EMPTY]).readType("X", schema), "something else than a boolean is refused");
  } else {
    for (const k of [PAIR, OTHER, EMPTY]) G.assume(id !== k);
    refused(() => words([0xFEDCBA98, 0x1CB5C415, 0, 0xBC799737, id, 0, 0, 0]).readType("X", schema), "an object of another type is refused");
  }
}

// ---- the real schemas ----
export function each_constructor() {
  const schema: any = [mtproto, secret, telegram, telegram, telegram][G.choose(5)];
  const all = Object.keys(schema.definitions);
  for (let n = 0; n < 60; n++) {
    const name = all[G.choose(all.length)];
    if (name === "true") continue; // the type of a flag, never a value of its own
    if (schema.definitions[name][1].some(([, t]: any) => t === "!X")) continue;
    const o = G.object(schema, name);
    // functions are only sent: they are read by their name
    roundtrip(o, schema, schema.identifierToName[schema.definitions[name][0]] === name ? "X" : name, new Uint8Array(0), G.bytes(0, 8));
  }
}
