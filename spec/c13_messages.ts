// C13: protocol messages and containers of messages come back from their encoding as they went in, with the lengths the protocol prescribes.
import * as G from "./ghost.ts";
import { TLWriter } from "file:///repo/tl/1_tl_writer.ts";
import { TLReader } from "file:///repo/tl/1_tl_reader.ts";
import { deserializeMessage, deserializeMsgContainer, writeMessage } from "file:///repo/tl/2_message.ts";

const id64 = () => G.big(-(1n << 63n), (1n << 63n) - 1n);
const int32 = () => G.int(-2147483648, 2147483647);
// the constructor of a container is what tells one from an ordinary body
const isContainer = (b: Uint8Array) => b[0] === 0xDC && b[1] === 0xF8 && b[2] === 0xF1 && b[3] === 0x73;
function body(max: number) {
  const b = G.bytes(4, max);
  G.assume(G.pure(() => !isContainer(b)));
  return b;
}
const message = (max = 1 << 24): any => ({ _: "message", msg_id: id64(), seqno: int32(), body: body(max) });

export function one_message() {
  const m = message();
  const before = G.bytes(0, 64), after = G.bytes(0, 64);
  const w = new TLWriter();
  w.write(before);
  writeMessage(w, m);
  G.assert(w.buffer.length === before.length + 16 + m.body.length, "a message takes sixteen bytes and its body");
  w.write(after);
  const r = new TLReader(w.buffer);
  r.readView(before.length);
  const m2: any = deserializeMessage(r);
  G.assert(m2._ === "message" && m2.msg_id === m.msg_id && m2.seqno === m.seqno, "identifier and sequence number come back");
  G.assert(G.eqBytes(m2.body, m.body), "the body comes back");
  G.assert(G.eqBytes(r.buffer, after), "what follows the message is left to be read");
}
export function containers() {
  container(G.choose(3), 1 << 24);
}
export function longer_containers() {
  container(3 + G.choose(2), 40);
}
function container(n: number, max: number) {
  const messages: any[] = [];
  let size = 8;
  for (let i = 0; i < n; i++) {
    messages.push(message(max));
    size += 16 + messages[i].body.length;
  }
  const c: any = { _: "message", msg_id: id64(), seqno: int32(), body: { _: "msg_container", messages } };
  const w = new TLWriter();
  writeMessage(w, c);
  const b = w.buffer;
  G.assert(b.length === 16 + size, "a container takes eight bytes and its messages");
  G.assert(b[12] + b[13] * 256 + b[14] * 65536 + b[15] * 16777216 === size, "the length of the container is announced");
  const r = new TLReader(b);
  const c2: any = deserializeMessage(r);
  G.assert(c2.msg_id === c.msg_id && c2.seqno === c.seqno && c2.body._ === "msg_container", "a container is recognised");
  G.assert(r.buffer.length === 0, "a container is read to its end");
  G.assert(c2.body.messages.length === n, "no message of a container is lost or added");
  for (let i = 0; i < n; i++) {
    const x = c2.body.messages[i], y = messages[i];
    G.assert(x.msg_id === y.msg_id && x.seqno === y.seqno && G.eqBytes(x.body, y.body), "each message of a container comes back in its place");
  }
}
export function nested_containers() {
  const shape = G.choose(3);
  const max = shape === 0 ? 1 << 24 : 60;
  const a = message(max), b = message(max), d = message(max);
  const inner: any = { _: "message", msg_id: id64(), seqno: int32(), body: { _: "msg_container", messages: [b] } };
  const messages = [[inner], [a, inner], [inner, d]][shape];
  const c: any = { _: "message", msg_id: id64(), seqno: int32(), body: { _: "msg_container", messages } };
  const w = new TLWriter();
  writeMessage(w, c);
  const after = G.bytes(0, 16);
  w.write(after);
  const r = new TLReader(w.buffer);
  const c2: any = deserializeMessage(r);
  G.assert(G.eqBytes(r.buffer, after), "a nested container ends where it should");
  G.assert(c2.body._ === "msg_container" && c2.body.messages.length === messages.length, "the outer container is whole");
  for (let i = 0; i < messages.length; i++) {
    const x = c2.body.messages[i], y = messages[i];
    G.assert(x.msg_id === y.msg_id && x.seqno === y.seqno, "each entry is in its place");
    if (y === inner) {
      G.assert(x.body._ === "msg_container" && x.body.messages.length === 1, "the inner container is recognised");
      const z = x.body.messages[0];
      G.assert(z.msg_id === b.msg_id && z.seqno === b.seqno && G.eqBytes(z.body, b.body), "the inner message comes back");
    } else G.assert(G.eqBytes(x.body, y.body), "the body comes back");
  }
}
// a body is confined to the length announced for it
export function confined() {
  const w = new TLWriter();
  const len = 4 + 4 * G.choose(3);
  const b = G.bytes(0, 20);
  w.writeInt64(id64()).writeInt32(int32()).writeInt32(len).write(b);
  const r = new TLReader(w.buffer);
  let m: any = null;
  try {
    m = deserializeMessage(r);
  } catch {
    //
  }
  if (b.length < len) G.assert(m === null, "a truncated message is refused");
  else if (G.pure(() => !isContainer(b))) {
    G.assert(m !== null && m.body.length === len && G.eqRange(m.body, 0, b, 0, len), "a body has exactly the announced length");
    G.assert(r.buffer.length === b.length - len, "exactly the announced length is consumed");
  } else if (m !== null) {
    // a container of so few bytes can only be empty
    G.assert(len >= 8 && m.body.messages.length === 0 && b[4] + b[5] + b[6] + b[7] === 0, "a container takes its messages from its own bytes only");
  }
}
