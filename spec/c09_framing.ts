// C09: a payload handed to a transport arrives at the other end intact, whatever its length, with nothing lost between payloads.
import * as G from "./ghost.ts";
import { TransportAbridged } from "file:///repo/transport/1_transport_abridged.ts";
import { TransportIntermediate } from "file:///repo/transport/1_transport_intermediate.ts";

// a reliable byte pipe
class Pipe {
  data = new Uint8Array(0);
  at = 0;
  stateChangeHandler: any;
  isConnected = true;
  open() {}
  close() {}
  write(b: Uint8Array) {
    const d = new Uint8Array(this.data.length + b.length);
    d.set(this.data);
    d.set(b, this.data.length);
    this.data = d;
    return Promise.resolve();
  }
  read(b: Uint8Array) {
    G.assert(this.at + b.length <= this.data.length, "the receiver never waits for bytes the sender did not send");
    b.set(this.data.subarray(this.at, this.at + b.length));
    this.at += b.length;
    return Promise.resolve();
  }
}
function payload(max: number) {
  const b = G.bytes(0, max);
  G.assume(b.length % 4 === 0);
  return b;
}
export async function abridged() {
  const pipe = new Pipe();
  const s = new TransportAbridged(pipe as any), r = new TransportAbridged(pipe as any);
  const a = G.bytes(0, 4 * 0xFFFFFF), b = G.bytes(0, 4 * 0xFFFFFF);
  const n = a.length - a.length % 4, m = b.length - b.length % 4;
  const x = a.subarray(0, n), y = b.subarray(0, m);
  await s.send(x);
  await s.send(y);
  const x2 = await r.receive();
  const y2 = await r.receive();
  G.assert(G.eqBytes(x2, x), "the first payload arrives intact");
  G.assert(G.eqBytes(y2, y), "the next payload arrives intact");
  G.assert(pipe.at === pipe.data.length, "nothing is left over");
}
export async function abridged_header() {
  const pipe = new Pipe();
  const s = new TransportAbridged(pipe as any);
  await s.initialize();
  G.assert(pipe.data.length === 1 && pipe.data[0] === 0xEF, "the abridged tag is announced");
  const a = G.bytes(0, 4 * 0xFFFFFF);
  const x = a.subarray(0, a.length - a.length % 4);
  await s.send(x);
  const words = x.length / 4;
  const d = pipe.data;
  if (words < 0x7F) G.assert(d[1] === words && d.length === 2 + x.length, "short payloads have a one-byte header");
  else G.assert(d[1] === 0x7F && d[2] + d[3] * 256 + d[4] * 65536 === words && d.length === 5 + x.length, "long payloads have a four-byte header");
}
export async function intermediate() {
  const pipe = new Pipe();
  const padded = G.bool();
  const s = new TransportIntermediate(pipe as any, { isPadded: padded }), r = new TransportIntermediate(pipe as any, { isPadded: padded });
  const x = G.bytes(0, 1 << 26), y = G.bytes(0, 1 << 26);
  await s.send(x);
  await s.send(y);
  const x2 = await r.receive();
  const y2 = await r.receive();
  if (!padded) {
    G.assert(G.eqBytes(x2, x), "the first payload arrives intact");
    G.assert(G.eqBytes(y2, y), "the next payload arrives intact");
  } else {
    G.assert(x.length <= x2.length && x2.length < x.length + 16, "padding is shorter than sixteen bytes");
    G.assert(G.eqRange(x2, 0, x, 0, x.length), "the first payload arrives in front of its padding");
    G.assert(y.length <= y2.length && y2.length < y.length + 16, "padding is shorter than sixteen bytes");
    G.assert(G.eqRange(y2, 0, y, 0, y.length), "the next payload arrives in front of its padding");
  }
  G.assert(pipe.at === pipe.data.length, "nothing is left over");
}
export async function intermediate_header() {
  const pipe = new Pipe();
  const padded = G.bool();
  const s = new TransportIntermediate(pipe as any, { isPadded: padded });
  await s.initialize();
  const t = padded ? 0xDD : 0xEE;
  const d0 = pipe.data;
  G.assert(d0.length === 4 && d0[0] === t && d0[1] === t && d0[2] === t && d0[3] === t, "the intermediate tag is announced");
  const x = G.bytes(0, 1 << 26);
  await s.send(x);
  const d = pipe.data;
  G.assert(d[4] + d[5] * 256 + d[6] * 65536 + d[7] * 16777216 === d.length - 8, "the header is the length of what follows");
}
