// C15: what a session sends decrypts, at the server, to exactly what was handed to it; what it delivers was encrypted by the server for it.
import * as G from "./ghost.ts";
import { SessionEncrypted } from "file:///repo/session/2_session_encrypted.ts";
import { concat } from "file:///repo/0_deps.ts";
import { le, msgKeyOf, open, seal, sha1, signed, u, Wire } from "./server.ts";

async function session() {
  G.setNow(G.int(1000000000000, 2147483647999));
  const wire = new Wire();
  const s = new SessionEncrypted("2" as any, { transportProvider: (() => ({ connection: wire, transport: wire, dcId: 2 })) as any });
  const authKey = G.bytes(256, 256) as any;
  await s.setAuthKey(authKey);
  const received: Uint8Array[] = [];
  s.handlers.onUpdate = (b: any) => {
    received.push(b);
  };
  return { wire, s, authKey, received };
}

// a body of at most a kilobyte, which is never compressed
export async function outgoing() {
  const { wire, s, authKey } = await session();
  const salt = G.big(-(1n << 63n), (1n << 63n) - 1n);
  s.serverSalt = salt;
  await s.connect();
  const body = G.bytes(0, 1024) as any;
  const before = G.snap(body);
  let id: bigint | null = null;
  const sending = wire.nextSend();
  const p = s.send(body, (x: bigint) => {
    id = x;
    return () => {};
  });
  await sending;
  await p;
  const packet = wire.sent[0];
  G.assert(G.eqRange(packet, 0, await sha1(authKey), 12, 8), "a packet starts with the identifier of the key");
  const plain = await open(authKey, packet, 0);
  G.assert(G.eqRange(packet, 8, await msgKeyOf(authKey, plain, 0), 0, 16), "the message key is that of the plaintext");
  G.assert(signed(u(plain, 0, 8), 64n) === salt, "the server's salt is sent");
  G.assert(signed(u(plain, 8, 8), 64n) === s.id, "the session's identifier is sent");
  G.assert(u(plain, 16, 8) === id, "the announced message identifier is sent");
  G.assert(u(plain, 24, 4) === 1n, "the first content message has sequence number one");
  G.assert(u(plain, 28, 4) === BigInt(before.length), "the length of the body is sent");
  G.assert(G.eqRange(plain, 32, before, 0, before.length), "the body is sent unchanged");
  const padding = plain.length - 32 - before.length;
  G.assert(padding >= 12 && padding <= 1024 && plain.length % 16 === 0, "a packet is padded as the protocol asks");
}
// a genuine packet: any salt, identifiers and padding the protocol allows
function genuine(sessionId: bigint, body: Uint8Array, extra = G.choose(3)) {
  const padding = (16 - (32 + body.length + 12) % 16) % 16 + 12 + 16 * extra;
  return concat([le(G.big(0n, (1n << 64n) - 1n), 8), le(sessionId < 0n ? sessionId + (1n << 64n) : sessionId, 8), le(G.big(0n, (1n << 63n) - 1n), 8), le(G.big(0n, 0x7FFFFFFFn), 4), le(BigInt(body.length), 4), body, new Uint8Array(padding)]);
}
function update(lo: number, hi: number) {
  const body = G.bytes(4 * lo, 4 * hi + 3);
  const b = body.subarray(0, body.length - body.length % 4);
  b.set([0x44, 0x33, 0x22, 0x11]);
  return b;
}
export async function incoming() {
  const { wire, s, authKey, received } = await session();
  await s.connect();
  const body = update(1, 1 << 16);
  const packet = await seal(authKey, genuine(s.id, body), 8);
  await wire.deliver(packet);
  G.assert(received.length === 1, "a genuine packet is delivered once");
  if (received.length === 1) G.assert(G.eqBytes(received[0], body), "what is delivered is what the server encrypted");
}
// any packet that the holder of the key did not make
async function forge(authKey: Uint8Array, blocks = 1 << 12) {
  const len = 24 + 16 * G.int(1, blocks);
  const packet = G.bytes(len, len) as any;
  packet.set((await sha1(authKey)).subarray(12, 20));
  const plain = await open(authKey, packet, 8);
  const mk = await msgKeyOf(authKey, plain, 8);
  const at = G.int(0, 15);
  G.assume(packet[8 + at] !== mk[at]);
  return { packet, plain };
}
export async function forged() {
  const { wire, s, authKey, received } = await session();
  await s.connect();
  const { packet } = await forge(authKey);
  await wire.deliver(packet);
  G.assert(received.length === 0, "a packet with a wrong message key is not delivered");
  G.assert(s.isConnected, "a forged packet does not end the session");
}
export async function recovery() {
  const { wire, s, authKey, received } = await session();
  await s.connect();
  const { packet, plain } = await forge(authKey, 64);
  await wire.deliver(packet);
  const body = update(1, 64);
  G.assume(plain[28] !== body.length % 256); // not the packet that follows
  await wire.deliver(await seal(authKey, genuine(s.id, body, 0), 8));
  G.assert(received.length === 1 && G.eqBytes(received[0], body), "a genuine packet is delivered after a forged one");
}
export async function other_session() {
  const { wire, s, authKey, received } = await session();
  await s.connect();
  const id = G.big(-(1n << 63n), (1n << 63n) - 1n);
  G.assume(id !== s.id);
  await wire.deliver(await seal(authKey, genuine(id, update(1, 64)), 8));
  G.assert(received.length === 0, "a packet for another session is not delivered");
}
// a packet of this client sent back to it
export async function reflected() {
  const { wire, s, authKey, received } = await session();
  await s.connect();
  const body = update(1, 1);
  const packet = await seal(authKey, genuine(s.id, body, 0), 0);
  const plain = await open(authKey, packet, 8);
  const mk = await msgKeyOf(authKey, plain, 8);
  const at = G.int(0, 15);
  G.assume(packet[8 + at] !== mk[at]);
  await wire.deliver(packet);
  G.assert(received.length === 0, "a packet made for the other direction is not delivered");
}
