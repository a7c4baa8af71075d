// C10: bytes leave a byte queue in the order they entered, each exactly once, however pushes and reads are cut.
import * as G from "./ghost.ts";
import { ByteQueue } from "file:///repo/connection/0_byte_queue.ts";

function join(parts: Uint8Array[]) {
  let n = 0;
  for (const p of parts) n += p.length;
  const r = new Uint8Array(n);
  let o = 0;
  for (const p of parts) {
    r.set(p, o);
    o += p.length;
  }
  return r;
}
export function fifo() {
  const q = new ByteQueue();
  const a = G.bytes(0, 1 << 24), b = G.bytes(0, 1 << 24), c = G.bytes(0, 1 << 24);
  q.push(a);
  const early = G.int(0, a.length);
  const first = new Uint8Array(early);
  q.read(first);
  q.push(b);
  q.push(c);
  const all = join([a, b, c]);
  G.assert(q.length === all.length - early, "the length is what was pushed and not read");
  const n = G.int(0, all.length - early);
  const second = new Uint8Array(n);
  q.read(second);
  G.assert(q.length === all.length - early - n, "reading shortens the queue by exactly what was read");
  const third = new Uint8Array(all.length - early - n);
  q.read(third);
  G.assert(q.length === 0, "everything can be read");
  G.assert(G.eqRange(first, 0, all, 0, early), "the first read gets the first bytes");
  G.assert(G.eqRange(second, 0, all, early, n), "the second read continues where the first ended");
  G.assert(G.eqRange(third, 0, all, early + n, all.length - early - n), "the last read gets the rest");
}
export function refuses_short_reads() {
  const q = new ByteQueue();
  const a = G.bytes(0, 1 << 24), b = G.bytes(0, 1 << 24);
  q.push(a);
  q.push(b);
  const d = new Uint8Array(a.length + b.length + G.int(1, 1 << 16));
  let refused = false;
  try {
    q.read(d);
  } catch {
    refused = true;
  }
  G.assert(refused, "reading more than there is is refused");
  G.assert(q.length === a.length + b.length, "a refused read takes nothing");
  const all = join([a, b]);
  const r = new Uint8Array(all.length);
  q.read(r);
  G.assert(G.eqBytes(r, all), "nothing is lost by a refused read");
}
// many chunks, so that the queue drops its consumed prefix
export function long_queues() {
  const q = new ByteQueue();
  const data = G.bytes(420, 420);
  let pushed = 0, read = 0;
  const push = (k: number, size: number) => {
    for (let i = 0; i < k; i++) {
      q.push(data.subarray(pushed, pushed + size));
      pushed += size;
    }
  };
  const take = (n: number) => {
    const d = new Uint8Array(n);
    q.read(d);
    G.assert(G.eqRange(d, 0, data, read, n), "reads continue in order");
    read += n;
    G.assert(q.length === pushed - read, "the length stays exact");
  };
  const size = G.choose(3) + 1;
  push(70, size);
  take((62 + G.choose(5)) * size - G.choose(size));
  push(20 + G.choose(2) * 40, size);
  take(size * 3 + G.choose(2));
  push(5, size);
  if (G.bool()) {
    q.clear();
    G.assert(q.length === 0, "clearing empties the queue");
    read = pushed;
  }
  push(4, size);
  take(pushed - read);
}
// arbitrary long histories, executed
export function histories() {
  const q = new ByteQueue();
  const data = new Uint8Array(60000);
  for (let i = 0; i < data.length; i++) data[i] = (i * 131 + (i >> 8) * 17) & 255;
  let pushed = 0, read = 0;
  const steps = G.int(1, 300);
  for (let i = 0; i < steps && pushed < 55000; i++) {
    if (G.choose(5) < 3) {
      const k = G.choose(4) === 0 ? G.int(1, 90) : 1;
      for (let j = 0; j < k; j++) {
        const n = G.int(0, 30);
        q.push(data.subarray(pushed, pushed + n));
        pushed += n;
      }
    } else {
      const n = G.int(0, pushed - read);
      const d = new Uint8Array(n);
      q.read(d);
      G.assert(G.eqRange(d, 0, data, read, n), "reads continue in order");
      read += n;
    }
    G.assert(q.length === pushed - read, "the length stays exact");
  }
}
