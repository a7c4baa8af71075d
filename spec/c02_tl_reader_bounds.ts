// C02: whatever bytes a TL reader is given, each read either returns exactly what the unread bytes encode or refuses,
// and never touches anything outside the given bytes.  A reader's state is (input, position); both are arbitrary here,
// so one step from every state covers every history.
import * as G from "./ghost.ts";
import { TLReader } from "file:///repo/tl/1_tl_reader.ts";
import { TLError } from "file:///repo/0_errors.ts";

// a reader over a window into a larger buffer, at an arbitrary position
function anyReader() {
  const whole = G.bytes(0, 1 << 26);
  const from = G.int(0, whole.length);
  const to = G.int(from, whole.length);
  const data = whole.subarray(from, to);
  const r = new TLReader(data);
  const pos = G.int(0, data.length);
  r.read(pos);
  return { r, data, pos, left: data.length - pos };
}
function attempt(f: () => any): { ok: boolean; value: any; tl: boolean } {
  try {
    return { ok: true, value: f(), tl: false };
  } catch (e) {
    return { ok: false, value: null, tl: e instanceof TLError };
  }
}
const le = (d: Uint8Array, p: number, n: number) => {
  let v = 0;
  for (let i = n - 1; i >= 0; i--) v = v * 256 + d[p + i];
  return v;
};
const leBig = (d: Uint8Array, p: number, n: number) => {
  let v = 0n;
  for (let i = n - 1; i >= 0; i--) v = v * 256n + BigInt(d[p + i]);
  return v;
};
function after(r: TLReader, data: Uint8Array, at: number) {
  const rest = r.buffer;
  G.assert(rest.length === data.length - at, "exactly the encoded bytes are consumed");
  G.assert(G.eqRange(rest, 0, data, at, data.length - at), "the unread bytes are the rest of the input");
}

export function read_exact() {
  const { r, data, pos, left } = anyReader();
  const n = G.int(-(2 ** 31), 2 ** 31 - 1);
  const copy = G.bool();
  const res = attempt(() => copy ? r.read(n) : r.readView(n));
  if (0 <= n && n <= left) {
    G.assert(res.ok, "a read within the input succeeds");
    if (!res.ok) return;
    G.assert(res.value.length === n, "exactly the requested count is returned");
    G.assert(G.eqRange(res.value, 0, data, pos, n), "the bytes returned are the next ones");
    after(r, data, pos + n);
  } else {
    G.assert(!res.ok && res.tl, "a read past the end or of a negative count is refused with a TL error");
    after(r, data, pos);
  }
}
export function read_integers() {
  const { r, data, pos, left } = anyReader();
  const k = G.choose(4);
  const signed = G.bool();
  const n = [3, 4, 8, 8][k];
  const res = attempt(() => k === 0 ? r.readInt24(signed) : k === 1 ? r.readInt32(signed) : k === 2 ? r.readInt64(signed) : r.readDouble());
  if (left < n) {
    G.assert(!res.ok && res.tl, "an integer past the end is refused with a TL error");
    after(r, data, pos);
    return;
  }
  G.assert(res.ok, "an integer within the input is read");
  if (!res.ok) return;
  if (k === 0 || k === 1) {
    const u = le(data, pos, n), lim = k === 0 ? 2 ** 24 : 2 ** 32;
    G.assert(res.value === (signed && u >= lim / 2 ? u - lim : u), "the integer is the little-endian value");
  } else if (k === 2) {
    const u = leBig(data, pos, 8);
    G.assert(res.value === (signed && u >= 2n ** 63n ? u - 2n ** 64n : u), "the integer is the little-endian value");
  }
  after(r, data, pos + n);
}
export function read_large_integers() {
  const { r, data, pos, left } = anyReader();
  const wide = G.bool(), signed = G.bool();
  const n = wide ? 32 : 16;
  const res = attempt(() => wide ? r.readInt256(signed) : r.readInt128(signed));
  if (left < n) {
    G.assert(!res.ok && res.tl, "an integer past the end is refused with a TL error");
    after(r, data, pos);
    return;
  }
  G.assert(res.ok, "an integer within the input is read");
  if (!res.ok) return;
  const u = leBig(data, pos, n), lim = 1n << BigInt(n * 8);
  G.assert(res.value === (signed && u >= lim / 2n ? u - lim : u), "the integer is the little-endian value");
  after(r, data, pos + n);
}
export function read_byte_string() {
  const { r, data, pos, left } = anyReader();
  const res = attempt(() => r.readBytes());
  if (left < 1 || data[pos] > 253 && left < 4) {
    G.assert(!res.ok && res.tl, "a truncated header is refused with a TL error");
    return;
  }
  const long = data[pos] > 253;
  const L = long ? le(data, pos + 1, 3) : data[pos];
  const head = long ? 4 : 1;
  const total = head + L + (4 - (head + L) % 4) % 4;
  if (left < total) {
    G.assert(!res.ok && res.tl, "a truncated byte string is refused with a TL error");
    return;
  }
  G.assert(res.ok, "a complete byte string is read");
  if (!res.ok) return;
  G.assert(res.value.length === L, "the length is the encoded one");
  G.assert(G.eqRange(res.value, 0, data, pos + head, L), "the bytes are the encoded ones");
  after(r, data, pos + total);
}
export function unread_restores() {
  const { r, data, pos } = anyReader();
  const n = G.int(0, 1 << 26);
  const res = attempt(() => r.unread(n));
  if (n <= pos) {
    G.assert(res.ok, "bytes already read can be unread");
    after(r, data, pos - n);
  } else {
    G.assert(!res.ok && res.tl, "unreading past the start is refused with a TL error");
    after(r, data, pos);
  }
}
