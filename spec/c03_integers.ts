// C03: integers and their byte representations convert both ways without loss; values that do not fit are refused.
import * as G from "./ghost.ts";
import { getRandomInt, intFromBytes, intToBytes } from "file:///repo/utilities/0_int.ts";
import { TLError } from "file:///repo/0_errors.ts";

const WIDTHS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 27, 31, 32, 33, 40, 64];
function anyWidth() {
  return WIDTHS[G.choose(WIDTHS.length)];
}
const two = (n: number) => 1n << BigInt(n);

export function encode_decode() {
  const n = anyWidth();
  const isSigned = G.bool();
  const byteOrder = G.bool() ? "little" : "big";
  const lo = isSigned ? -two(n * 8 - 1) : 0n, hi = isSigned ? two(n * 8 - 1) - 1n : two(n * 8) - 1n;
  const v = G.big(lo, hi);
  const b = intToBytes(v, n, { byteOrder, isSigned });
  G.assert(b.length === n, "the representation has the requested size");
  const u = v < 0n ? v + two(n * 8) : v;
  // two's complement, byte by byte
  let same = true;
  for (let i = 0; i < n; i++) {
    const at = byteOrder === "little" ? i : n - 1 - i;
    same = G.and(same, BigInt(b[at]) === ((u >> BigInt(8 * i)) & 255n));
  }
  G.assert(same, "the representation is two's complement in the requested byte order");
  G.assert(intFromBytes(b, { byteOrder, isSigned }) === v, "decoding returns the integer that was encoded");
}
export function decode_encode() {
  const n = anyWidth();
  const isSigned = G.bool();
  const byteOrder = G.bool() ? "little" : "big";
  const whole = G.bytes(n, 300);
  const at = G.int(0, whole.length - n);
  const b = whole.subarray(at, at + n);
  const v = intFromBytes(b, { byteOrder, isSigned });
  const lo = isSigned ? -two(n * 8 - 1) : 0n, hi = isSigned ? two(n * 8 - 1) : two(n * 8);
  G.assert(lo <= v && v < hi, "the decoded integer is in the range of its width");
  const c = intToBytes(v, n, { byteOrder, isSigned });
  let same = true;
  for (let i = 0; i < n; i++) same = G.and(same, c[i] === b[i]);
  G.assert(same, "encoding returns the bytes that were decoded");
}
export function out_of_range_refused() {
  const n = anyWidth();
  const isSigned = G.bool();
  const byteOrder = G.bool() ? "little" : "big";
  const v = G.big(-two(600), two(600));
  const lo = isSigned ? -two(n * 8 - 1) : 0n, hi = isSigned ? two(n * 8 - 1) : two(n * 8);
  let refused = false, tl = false;
  try {
    intToBytes(v, n, { byteOrder, isSigned });
  } catch (e) {
    refused = true;
    tl = e instanceof TLError;
  }
  if (lo <= v && v < hi) G.assert(!refused, "an integer in range is accepted");
  else G.assert(refused && tl, "an integer out of range is refused");
}
export function number_out_of_range_refused() {
  const n = [1, 2, 3, 4, 6, 8][G.choose(6)];
  const isSigned = G.bool();
  const v = G.int(-(2 ** 53) + 1, 2 ** 53 - 1);
  const lo = isSigned ? -two(n * 8 - 1) : 0n, hi = isSigned ? two(n * 8 - 1) : two(n * 8);
  let refused = false;
  let b: Uint8Array | null = null;
  try {
    b = intToBytes(v, n, { isSigned });
  } catch {
    refused = true;
  }
  if (lo <= BigInt(v) && BigInt(v) < hi) {
    G.assert(!refused, "a number in range is accepted");
    if (b) G.assert(intFromBytes(b, { isSigned }) === BigInt(v), "decoding returns the number that was encoded");
  } else G.assert(refused, "a number out of range is refused");
}
export function random_in_range() {
  const n = anyWidth();
  const isSigned = G.bool();
  const v = getRandomInt(n, isSigned);
  const lo = isSigned ? -two(n * 8 - 1) : 0n, hi = isSigned ? two(n * 8 - 1) : two(n * 8);
  G.assert(lo <= v && v < hi, "a random integer is in the range of its width");
}
