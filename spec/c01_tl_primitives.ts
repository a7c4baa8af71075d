// C01: TL primitives survive a write/read round trip, aligned, for every value and every buffer position.
import * as G from "./ghost.ts";
import { TLWriter } from "file:///repo/tl/1_tl_writer.ts";
import { TLReader } from "file:///repo/tl/1_tl_reader.ts";

// a writer in an arbitrary state: any number of bytes already written
function anyWriter() {
  const pre = G.bytes(0, 1 << 24);
  const w = new TLWriter();
  w.write(pre);
  return { w, pre };
}

export function bytes_roundtrip() {
  const { w, pre } = anyWriter();
  const b = G.bytes(0, 0xFFFFFF);
  const before = w.length;
  w.writeBytes(b);
  G.assert(w.length % 4 === before % 4, "a byte string occupies a multiple of four bytes");
  const post = G.bytes(0, 64);
  w.write(post);
  const out = w.buffer;
  G.assert(G.eqRange(out, 0, pre, 0, pre.length), "bytes written earlier are preserved");
  const r = new TLReader(out);
  r.read(pre.length);
  const x = r.readBytes();
  G.assert(G.eqBytes(x, b), "the byte string read is the one written");
  const y = r.read(post.length);
  G.assert(G.eqBytes(y, post), "reading resumes exactly after the byte string");
}

export function int32_roundtrip() {
  const { w, pre } = anyWriter();
  const signed = G.bool();
  const v = signed ? G.int(-(2 ** 31), 2 ** 31 - 1) : G.int(0, 2 ** 32 - 1);
  w.writeInt32(v, signed);
  const r = new TLReader(w.buffer);
  r.read(pre.length);
  G.assert(r.readInt32(signed) === v, "int32 read is the one written");
  G.assert(r.buffer.length === 0, "exactly four bytes");
}
export function int64_roundtrip() {
  const { w, pre } = anyWriter();
  const signed = G.bool();
  const v = signed ? G.big(-(2n ** 63n), 2n ** 63n - 1n) : G.big(0n, 2n ** 64n - 1n);
  w.writeInt64(v, signed);
  const r = new TLReader(w.buffer);
  r.read(pre.length);
  G.assert(r.readInt64(signed) === v, "int64 read is the one written");
  G.assert(r.buffer.length === 0, "exactly eight bytes");
}
export function int128_roundtrip() {
  const { w, pre } = anyWriter();
  const signed = G.bool();
  const v = signed ? G.big(-(2n ** 127n), 2n ** 127n - 1n) : G.big(0n, 2n ** 128n - 1n);
  w.writeInt128(v, signed);
  const r = new TLReader(w.buffer);
  r.read(pre.length);
  G.assert(r.readInt128(signed) === v, "int128 read is the one written");
  G.assert(r.buffer.length === 0, "exactly sixteen bytes");
}
