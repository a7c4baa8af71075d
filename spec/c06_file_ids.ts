// C06: file identifiers decode to exactly the file they were made from; unique identifiers name the file and nothing else.
import * as G from "./ghost.ts";
import { deserializeFileId, serializeFileId, toUniqueFileId } from "file:///repo/types/_file_id.ts";

// text transport of the payload: contracts of run-length coding (C05) and base64 (C19), both inverse pairs
let wire: Uint8Array | null = null;
function useWireContracts() {
  G.override("utilities/0_rle.ts#rleEncode", (d: Uint8Array) => G.snap(d));
  G.override("utilities/0_rle.ts#rleDecode", (d: Uint8Array) => G.snap(d));
  G.override("utilities/1_base64.ts#base64EncodeUrlSafe", (d: Uint8Array) => {
    wire = G.snap(d);
    return "wire";
  });
  G.override("utilities/1_base64.ts#base64DecodeUrlSafe", (_: string) => G.snap(wire!));
}
const i64 = () => G.big(-(1n << 63n), (1n << 63n) - 1n);
const i32 = () => G.int(-(2 ** 31), 2 ** 31 - 1);
const PHOTO_TYPES = [2, 1, 0, 11, 12, 20], COMMON_TYPES = [4, 3, 5, 8, 9, 10, 13, 16, 17, 18, 19, 21, 14, 15, 6, 7];

function anySource(): any {
  const type = G.choose(10);
  switch (type) {
    case 0:
      return { type, secret: i64() };
    case 1:
      return { type, fileType: G.int(0, 23), thumbnailType: i32() };
    case 2:
    case 3:
      return { type, chatId: i64(), chatAccessHash: i64() };
    case 4:
      return { type, stickerSetId: i64(), stickerSetAccessHash: i64() };
    case 5:
      return { type, volumeId: i64(), localId: i32(), secret: i64() };
    case 6:
    case 7:
      return { type, chatId: i64(), chatAccessHash: i64(), volumeId: i64(), localId: i32() };
    case 8:
      return { type, stickerSetId: i64(), stickerSetAccessHash: i64(), volumeId: i64(), localId: i32() };
    default:
      return { type, stickerSetId: i64(), stickerSetAccessHash: i64(), version: i32() };
  }
}
const FIELDS = ["secret", "fileType", "thumbnailType", "chatId", "chatAccessHash", "stickerSetId", "stickerSetAccessHash", "volumeId", "localId", "version"];
function sameSource(a: any, b: any) {
  let ok = a.type === b.type;
  for (const f of FIELDS) {
    G.assert((f in a) === (f in b), "the photo source keeps its fields");
    if (f in a && f in b) ok = G.and(ok, a[f] === b[f]);
  }
  return ok;
}
function check(id: any) {
  useWireContracts();
  const back: any = deserializeFileId(serializeFileId(id));
  G.assert(back.type === id.type, "the file type survives");
  G.assert(back.dcId === id.dcId, "the data centre survives");
  G.assert(back.location.type === id.location.type, "the location kind survives");
  G.assert(back.location.accessHash === id.location.accessHash, "the access hash survives");
  if (id.location.type === "web") {
    G.assert(back.location.url === id.location.url, "the URL survives");
    return;
  }
  G.assert(back.location.id === id.location.id, "the file's id survives");
  G.assert((back.fileReference === undefined) === (id.fileReference === undefined), "a file reference is there exactly when there was one");
  if (back.fileReference && id.fileReference) G.assert(G.eqBytes(back.fileReference, id.fileReference), "the file reference survives");
  if (id.location.type === "photo") G.assert(sameSource(back.location.source, id.location.source), "the photo source survives");
}
// any length, split by its remainder modulo four (the padding of byte strings)
function anyRef() {
  if (G.bool()) return undefined;
  const n = 4 * G.int(0, G.symbolic ? 1 << 20 : 200) + G.choose(4);
  return G.bytes(n, n);
}
export function photo_roundtrip() {
  const k = G.choose(PHOTO_TYPES.length + 3);
  if (k < 3) check({ type: 2, dcId: i32(), fileReference: k === 0 ? undefined : shortRef(), location: { type: "photo", id: i64(), accessHash: i64(), source: anySource() } });
  else check({ type: PHOTO_TYPES[k - 3], dcId: i32(), fileReference: G.bool() ? undefined : new Uint8Array(0), location: { type: "photo", id: i64(), accessHash: i64(), source: { type: 1, fileType: 2, thumbnailType: i32() } } });
}
function shortRef() {
  const n = 4 * G.int(0, 50) + G.choose(4);
  return G.bytes(n, n);
}
export function photo_long_reference() {
  check({ type: 2, dcId: 2, fileReference: longRef(), location: { type: "photo", id: i64(), accessHash: i64(), source: { type: 1, fileType: 2, thumbnailType: i32() } } });
}
function longRef() {
  const n = 4 * G.int(50, G.symbolic ? 1 << 20 : 200) + G.choose(4);
  return G.bytes(n, n);
}
export function document_roundtrip() {
  const k = G.choose(COMMON_TYPES.length + 1);
  check({ type: COMMON_TYPES[k === 0 ? 0 : k - 1], dcId: i32(), fileReference: k === 0 ? anyRef() : G.bool() ? undefined : shortRef(), location: { type: "common", id: i64(), accessHash: i64() } });
}
export function web_roundtrip() {
  const type = COMMON_TYPES[G.choose(3) * 5];
  const url = G.str();
  const n = new TextEncoder().encode(url).length;
  G.assume(n < 1 << 24);
  if (G.symbolic) G.assume(n % 4 === G.choose(4));
  check({ type, dcId: i32(), location: { type: "web", url, accessHash: i64() } });
}

function unique(id: any): { text: string; bytes: Uint8Array | null } {
  wire = null;
  const text = toUniqueFileId(id);
  return { text, bytes: wire };
}
function same(a: { text: string; bytes: Uint8Array | null }, b: { text: string; bytes: Uint8Array | null }) {
  if (G.symbolic) {
    if (a.bytes!.length !== b.bytes!.length) return false;
    let equal = true;
    for (let i = 0; i < a.bytes!.length; i++) equal = G.and(equal, a.bytes![i] === b.bytes![i]);
    return equal;
  }
  return a.text === b.text;
}
export function unique_ignores_access() {
  useWireContracts();
  const photo = G.bool();
  const id = i64();
  const type = photo ? PHOTO_TYPES[G.choose(PHOTO_TYPES.length)] : COMMON_TYPES[G.choose(COMMON_TYPES.length)];
  let source: any = null;
  if (photo) {
    const k = G.choose(3);
    source = k === 0 ? { type: 1, fileType: 2, thumbnailType: G.int(0, 122) } : k === 1 ? { type: 2, chatId: i64(), chatAccessHash: i64() } : { type: 5, volumeId: i64(), localId: i32(), secret: i64() };
  }
  const make = (s: any): any => ({ type, dcId: i32(), fileReference: anyRef(), location: photo ? { type: "photo", id, accessHash: i64(), source: s } : { type: "common", id, accessHash: i64() } });
  const other = source === null ? null : source.type === 1 ? source : source.type === 2 ? { ...source, chatAccessHash: i64() } : { ...source, secret: i64() };
  G.assert(same(unique(make(source)), unique(make(other))), "the unique id does not depend on access hashes, file references or the data centre");
}
export function unique_tells_files_apart() {
  useWireContracts();
  const photo = G.bool();
  const id = i64(), id2 = i64();
  const type = photo ? 2 : COMMON_TYPES[G.choose(COMMON_TYPES.length)];
  const make = (i: bigint, thumb: number): any => ({ type, dcId: 2, fileReference: undefined, location: photo ? { type: "photo", id: i, accessHash: 5n, source: { type: 1, fileType: 2, thumbnailType: thumb } } : { type: "common", id: i, accessHash: 5n } });
  const t = G.int(0, 122), t2 = G.int(0, 122);
  const equal = same(unique(make(id, t)), unique(make(id2, t2)));
  if (id !== id2) G.assert(!equal, "files with different ids have different unique ids");
  else if (photo && t !== t2) G.assert(!equal, "sizes of one photo have different unique ids");
}
