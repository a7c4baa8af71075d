// C05: run-length coding is lossless.
import * as G from "./ghost.ts";
import { rleDecode, rleEncode } from "file:///repo/utilities/0_rle.ts";

// arbitrary short strings
export function short_strings() {
  const s = G.bytes(0, G.symbolic ? 5 : 2000);
  const e = rleEncode(s);
  const d = rleDecode(e);
  G.assert(d.length === s.length, "the length survives");
  G.assert(G.eqRange(d, 0, s, 0, s.length), "the bytes survive");
}
// zero runs around the counter limit, between arbitrary bytes
const RUNS = [0, 1, 2, 3, 253, 254, 255, 256, 257, 509, 510, 511, 512, 765, 766];
export function long_zero_runs() {
  const n = RUNS[G.choose(RUNS.length)];
  const m = [0, 1, 255][G.choose(3)];
  const a = G.int(1, 255), b = G.int(1, 255), c = G.int(1, 255);
  const lead = G.bool(), trail = m === 0 ? false : lead;
  const s = new Uint8Array((lead ? 1 : 0) + n + 1 + m + (trail ? 1 : 0));
  if (lead) s[0] = a;
  s[(lead ? 1 : 0) + n] = b;
  if (trail) s[s.length - 1] = c;
  const d = rleDecode(rleEncode(s));
  G.assert(d.length === s.length, "the length survives");
  G.assert(G.eqRange(d, 0, s, 0, s.length), "the bytes survive");
}
// an encoding never contains a zero without its count, so concatenated payloads stay decodable
export function encoding_size() {
  const s = G.bytes(0, G.symbolic ? 5 : 2000);
  const e = rleEncode(s);
  G.assert(e.length <= 2 * s.length, "at most two bytes per input byte");
  G.assert(s.length === 0 || e.length > 0, "nothing vanishes");
}
