// C17: the schemas are those of the protocol: the identifier of every constructor is the checksum of its declaration, and everything
// a declaration mentions exists.
import * as G from "./ghost.ts";
import { schema as telegram } from "file:///repo/tl/1_telegram_api.ts";
import { schema as mtproto } from "file:///repo/tl/1_mtproto_api.ts";
import { schema as secret } from "file:///repo/tl/1_secret_chats_api.ts";

const TABLE: number[] = [];
for (let n = 0; n < 256; n++) {
  let c = n;
  for (let k = 0; k < 8; k++) c = c % 2 === 1 ? ((c - 1) / 2 ^ 0xEDB88320) >>> 0 : c / 2;
  TABLE.push(c);
}
function crc32(s: string) {
  let c = 0xFFFFFFFF;
  for (let i = 0; i < s.length; i++) c = (TABLE[(c ^ s.charCodeAt(i)) & 255] ^ (c >>> 8)) >>> 0;
  return (c ^ 0xFFFFFFFF) >>> 0;
}
// declarations whose identifier is fixed by the protocol rather than computed, as they have to be
const FIXED: Record<string, string> = {
  "ipPortSecret ipv4:int port:int secret:bytes = IpPort": "37982646",
  "accessPointRule phone_prefix_rules:string dc_id:int ips:vector<IpPort> = AccessPointRule": "4679b65f",
  "help.configSimple date:int expires:int rules:vector<AccessPointRule> = help.ConfigSimple": "5a592a6c",
  "decryptedMessageMediaDocument thumb:bytes thumb_w:int thumb_h:int mime_type:string size:long key:bytes iv:bytes attributes:Vector<DocumentAttribute> caption:string = DecryptedMessageMedia": "6abd9782",
  "invokeWithBusinessConnectionPrefix connection_id:string = Error": "dd289f8e",
  "invokeWithGooglePlayIntegrityPrefix nonce:string token:string = Error": "1df92984",
  "invokeWithApnsSecretPrefix nonce:string secret:string = Error": "0dae54f8",
  "invokeWithReCaptchaPrefix token:string = Error": "adbb0f94",
};
// prefixes share the identifier of the function they are the beginning of
const SHARED = ["invokeWithBusinessConnectionPrefix", "invokeWithGooglePlayIntegrityPrefix", "invokeWithApnsSecretPrefix", "invokeWithReCaptchaPrefix"];
const hex = (n: number) => {
  let s = n.toString(16);
  while (s.length < 8) s = "0" + s;
  return s;
};
const FLAG = (t: string) => t.includes("?");
const afterFlag = (t: string) => FLAG(t) ? t.slice(t.indexOf("?") + 1) : t;
const isVector = (t: string) => t.startsWith("Vector<") || t.startsWith("vector<");
// layers of secret chats and superseded constructors carry a suffix that is not part of the declared name
function declaredNames(name: string) {
  const l = [name];
  let n = name.length;
  while (n > 0 && name.charCodeAt(n - 1) >= 48 && name.charCodeAt(n - 1) <= 57) n--;
  if (n < name.length) l.push(name.slice(0, n));
  if (name.endsWith("Legacy")) l.push(name.slice(0, -6));
  return l;
}
function declared(name: string, def: any) {
  const [id, fields, type] = def;
  let full = "", short = "";
  let generic = false;
  for (const [n, t] of fields) {
    full += " " + n + ":" + t;
    if (t === "!X") generic = true;
    const i = afterFlag(t);
    if (FLAG(t) && i === "true") continue;
    const u = i === "bytes" ? t.slice(0, t.length - 5) + "string" : t;
    short += " " + n + ":" + (isVector(i) ? t.slice(0, t.length - 1).replace("<", " ") : u);
  }
  const fixed = FIXED[name + full + " = " + type];
  if (fixed !== undefined) return fixed === hex(id);
  const result = isVector(type) ? type.slice(0, type.length - 1).replace("<", " ") : type;
  for (const n of declaredNames(name)) if (crc32(n + (generic ? " X:Type" : "") + short + " = " + result) === id) return true;
  return false;
}
function identifiers(schema: any) {
  for (const name of Object.keys(schema.definitions)) G.assert(declared(name, schema.definitions[name]), "the identifier of a constructor is the checksum of its declaration");
  const counted = Object.keys(schema.identifierToName).length;
  const ids = Object.create(null);
  let n = 0;
  for (const name of Object.keys(schema.definitions)) {
    const id = schema.definitions[name][0];
    if (SHARED.includes(name)) continue;
    G.assert(ids[id] === undefined, "no identifier is used twice");
    ids[id] = name;
    const back = schema.identifierToName[id];
    if (back !== undefined) {
      n++;
      G.assert(back === name, "an identifier leads back to its constructor");
    }
  }
  G.assert(n === counted, "every identifier belongs to a constructor");
}
const PRIMITIVE = ["#", "bytes", "int128", "int256", "double", "long", "true", "int", "Bool", "string", "!X"];
function references(schema: any) {
  const types = Object.create(null);
  for (const name of Object.keys(schema.definitions)) {
    const [id, , type] = schema.definitions[name];
    if (schema.identifierToName[id] === name) types[type] = true;
  }
  for (const name of Object.keys(schema.definitions)) {
    const flags = Object.create(null);
    for (const [n, t] of schema.definitions[name][1]) {
      if (t === "#") flags[n] = true;
      if (FLAG(t)) {
        const dot = t.indexOf(".");
        G.assert(flags[t.slice(0, dot)] === true, "the flags of a field come before it");
        const bit = Number(t.slice(dot + 1, t.indexOf("?")));
        G.assert(bit >= 0 && bit <= 31, "a flag is one of thirty-two bits");
      }
      let i = afterFlag(t);
      while (isVector(i)) i = i.slice(7, i.length - 1);
      G.assert(PRIMITIVE.includes(i) || types[i] === true || schema.definitions[i] !== undefined, "the type of a field exists");
    }
  }
  // the constructors of the types come first, then the functions, which are never received
  let known = true;
  for (const name of Object.keys(schema.definitions)) {
    const here = schema.identifierToName[schema.definitions[name][0]] === name;
    G.assert(known || !here, "a constructor of a type is known by its identifier");
    known = here;
  }
}
export function mtproto_identifiers() {
  identifiers(mtproto);
}
export function secret_chat_identifiers() {
  identifiers(secret);
}
export function telegram_identifiers() {
  identifiers(telegram);
}
export function mtproto_references() {
  references(mtproto);
}
export function secret_chat_references() {
  references(secret);
}
export function telegram_references() {
  references(telegram);
}
