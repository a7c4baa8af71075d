// C11: cutting a stream into parts loses, repeats and reorders nothing, and describes the parts correctly.
import * as G from "./ghost.ts";
import { PartStream } from "file:///repo/utilities/0_part_stream.ts";

let hooks: any = null;
class CapturedTransform {
  constructor(t: any) {
    hooks = t;
  }
}
// the parts produced from the given chunks by the stream's own transform and flush
async function cut(size: number, chunks: Uint8Array[]): Promise<any[]> {
  const out: any[] = [];
  if (G.symbolic) {
    G.stub("TransformStream", CapturedTransform);
    new PartStream(size);
    const c = { enqueue: (p: any) => out.push(p) };
    for (const x of chunks) await hooks.transform(x, c);
    await hooks.flush(c);
    return out;
  }
  const rs = new ReadableStream({
    start(c) {
      for (const x of chunks) c.enqueue(x);
      c.close();
    },
  }).pipeThrough(new PartStream(size) as any);
  for await (const p of rs) out.push(p);
  return out;
}
function verify(size: number, data: Uint8Array, parts: any[]) {
  const n = parts.length;
  let at = 0;
  for (let i = 0; i < n; i++) {
    const p = parts[i];
    G.assert(p.part === i, "parts are numbered in order");
    G.assert(p.bytes.length <= size, "no part is larger than the part size");
    if (i < n - 1) {
      G.assert(p.bytes.length === size, "every part but the last is full");
      G.assert(!p.isSmall && p.totalParts === -1, "only the last part announces the total");
    } else {
      G.assert(p.totalParts === (data.length === 0 ? 0 : n), "the last part announces the number of parts");
      G.assert(p.isSmall === (data.length <= size), "a stream is small exactly when it fits one part");
      G.assert(p.bytes.length > 0 || data.length === 0, "the last part is not empty unless the stream is");
    }
    G.assert(G.eqRange(p.bytes, 0, data, at, p.bytes.length), "the bytes are those of the stream at this position");
    at += p.bytes.length;
  }
  G.assert(at === data.length, "all bytes are in some part");
}
// one chunk of any length up to a few parts, any part size
export async function one_chunk() {
  const size = G.int(1, G.symbolic ? 1 << 19 : 700);
  const data = G.bytes(0, 3 * size);
  verify(size, data, await cut(size, [data]));
}
// two chunks with an arbitrary boundary
export async function two_chunks() {
  const size = G.int(1, G.symbolic ? 1 << 19 : 700);
  const data = G.bytes(0, 2 * size);
  const at = G.int(0, data.length);
  verify(size, data, await cut(size, [data.subarray(0, at), data.subarray(at)]));
}
// sources may reuse or overwrite a chunk's memory once the chunk has been consumed
export async function parts_do_not_alias_chunks() {
  const size = G.int(1, 512);
  const data = G.bytes(0, 2 * size);
  const keep = G.snap(data);
  const parts = await cut(size, [data]);
  for (let i = 0; i < data.length && i < 4; i++) data[i] = data[i] ^ 255;
  let at = 0;
  for (const p of parts) {
    G.assert(G.eqRange(p.bytes, 0, keep, at, p.bytes.length), "parts keep their bytes when the source reuses its buffer");
    at += p.bytes.length;
  }
}
export async function histories() {
  const size = G.int(1, 300);
  const data = new Uint8Array(G.int(0, 6000));
  for (let i = 0; i < data.length; i++) data[i] = (i * 131 + (i >> 8) * 17) & 255;
  const chunks: Uint8Array[] = [];
  let at = 0;
  while (at < data.length) {
    const n = Math.min(data.length - at, G.bool() ? G.int(0, 40) : G.int(1, 1000));
    chunks.push(data.subarray(at, at + n));
    at += n;
  }
  verify(size, data, await cut(size, chunks));
}
