// C28: both sides of a secret chat come to the same key, only a checked one, and stay able to read each other while keys are replaced.
import * as G from "./ghost.ts";
import { modExp } from "file:///repo/1_utilities.ts";
import { SecretChats, X } from "file:///repo/2_tl.ts";
import { CHAT, encrypted, HASH, opened, OTHER, SELF, serviceLayer, Side, Store, textLayer } from "./secret.ts";
import { sha1, u } from "./server.ts";

const NOW = 1700000000000;
const WEEK = 7 * 24 * 3600 * 1000;
const P = (() => {
  const hex = "c71caeb9c6b1c9048e6c522f70f13f73980d40238e3e21c14934d037563d930f48198a0aa7c14058229493d22530f4dbfa336f6e0ac925139543aed44cce7c3720fd51f69458705ac68cd4fe6b6b13abdc9746512969328454f18faf8c595f642477fe96bb2a941d5bcd1d4ac8cc49880708fa9b378e3c4f3a9060bee67cf9a4a4a695811051907e162753b56b0f6b410dba74d8a84b2a14b3144e0ef1284754fd17ed950d5965b4b9dd46582db1178d169c6bc465b0d6ff9ca3928fef5b9ae4e418fc15e83ebea0f87fa9ff5eed70050ded2849f47bf959d956850ce929851f0d8115f635b105ee2e4e15d04b2454bf6f4fadf034b10403119cd8e3b92fcc5b";
  const b = new Uint8Array(256);
  for (let i = 0; i < 256; ++i) b[i] = parseInt(hex.slice(2 * i, 2 * i + 2), 16);
  return b;
})();
const big = (b: Uint8Array) => {
  let v = 0n;
  for (const x of b) v = v * 256n + BigInt(x);
  return v;
};
const bytes = (v: bigint) => {
  const b = new Uint8Array(256);
  for (let i = 255; i >= 0; --i) {
    b[i] = Number(v & 255n);
    v >>= 8n;
  }
  return b;
};
// numbers that are all different, and small enough to compute with
let counter = 0;
function random(a: any) {
  const b = new Uint8Array(a.buffer, a.byteOffset, a.byteLength);
  b.fill(0);
  counter += 7;
  const n = 2000 + counter;
  b[0] = n % 256;
  if (b.length > 1) b[1] = Math.floor(n / 256);
  return a;
}
function start() {
  G.setNow(NOW);
  counter = 0;
  (crypto as any).getRandomValues = random;
}
const CONFIG = { _: "messages.dhConfig", g: 3, p: P, version: 1, random: new Uint8Array(256) };
const texts = (s: Side) => s.received.filter((r) => r.type === "secretMessage").map((r) => r.secretMessage.text).join(",");
const refused = async (p: Promise<any>) => {
  try {
    await p;
    return false;
  } catch {
    return true;
  }
};

// the server between the two of them
class Server {
  a = new Side(SELF);
  b = new Side(OTHER);
  g_a: any;
  g_b: any;
  fingerprint: any;
  config: any = CONFIG;
  constructor() {
    this.attach();
  }
  attach() {
    this.a.answer = (f: any) => this.answer(f);
    this.b.answer = (f: any) => this.answer(f);
  }
  chat(more: any) {
    return { id: CHAT, access_hash: HASH, date: 1, admin_id: BigInt(SELF), participant_id: BigInt(OTHER), ...more };
  }
  answer(f: any): any {
    switch (f._) {
      case "messages.getDhConfig":
        return this.config;
      case "messages.requestEncryption":
        this.g_a = f.g_a;
        return this.chat({ _: "encryptedChatWaiting" });
      case "messages.acceptEncryption":
        this.g_b = f.g_b;
        this.fingerprint = f.key_fingerprint;
        return this.chat({ _: "encryptedChat", g_a_or_b: f.g_b, key_fingerprint: f.key_fingerprint });
    }
  }
  requested(g_a = this.g_a) {
    return this.b.manager.handleUpdate({ _: "updateEncryption", chat: this.chat({ _: "encryptedChatRequested", g_a }), date: 1 });
  }
  accepted(g_b = this.g_b, key_fingerprint = this.fingerprint) {
    return this.a.manager.handleUpdate({ _: "updateEncryption", chat: this.chat({ _: "encryptedChat", g_a_or_b: g_b, key_fingerprint }), date: 1 });
  }
  async restart(which: number) {
    if (which === 1) this.a = await this.a.restarted();
    if (which === 2) this.b = await this.b.restarted();
    this.attach();
  }
  // everything that was sent is handed over
  async exchange() {
    while (this.a.sent.length || this.b.sent.length) {
      while (this.a.sent.length) await this.b.deliver(this.a.sent.shift().data);
      while (this.b.sent.length) await this.a.deliver(this.b.sent.shift().data);
    }
  }
}
export async function agreement() {
  start();
  const s = new Server();
  const when = G.choose(4), which = 1 + G.choose(2);
  await s.a.manager.requestSecretChat(OTHER);
  if (when === 0) await s.restart(which);
  await s.requested();
  if (when === 1) await s.restart(which);
  await s.b.manager.acceptSecretChat(CHAT);
  if (when === 2) await s.restart(which);
  await s.accepted();
  if (when === 3) await s.restart(which);
  const key = s.a.state.authKey;
  G.assert(key.length === 256 && G.eqBytes(key, s.b.state.authKey), "both sides have the same key");
  G.assert(big(key) === modExp(big(s.g_b), s.a.state.a, big(P)) && big(s.g_a) === modExp(3n, s.a.state.a, big(P)), "the one that follows from what was exchanged");
  G.assert(BigInt.asUintN(64, s.fingerprint) === u(await sha1(key), 12, 8), "the fingerprint is that of the key");
  await s.a.manager.sendSecretMessage(CHAT, "hello");
  await s.b.manager.sendSecretMessage(CHAT, "hi");
  await s.exchange();
  G.assert(texts(s.a) === "hi" && texts(s.b) === "hello" && s.a.discarded + s.b.discarded === 0, "and they read each other");
}
// nothing that could be chosen by somebody else is taken
const BAD: [string, bigint][] = [["zero", 0n], ["one", 1n], ["small", 1n << 1980n], ["the prime less one", big(P) - 1n], ["close to the prime", big(P) - (1n << 1980n)], ["the prime", big(P)], ["above the prime", big(P) + 5n], ["as large as can be", (1n << 2048n) - 1n]];
const GOOD: bigint[] = [1n << 1990n, big(P) - (1n << 1990n), (1n << 2040n) + 12345n];
async function ended(s: Side) {
  G.assert(s.discarded === 1 && s.state === undefined, "the chat is ended");
  const n = s.calls.length;
  G.assert(await refused(s.manager.sendSecretMessage(CHAT, "x")) && s.calls.length === n, "nothing can be sent in it");
}
export async function bad_configuration() {
  start();
  const s = new Server();
  await s.a.manager.requestSecretChat(OTHER);
  await s.requested();
  const how = G.choose(7);
  const p = P.slice();
  if (how === 0) p[G.choose(2) === 0 ? 255 : 100] ^= 2;
  if (how === 1) p[0] &= 127;
  const g = how < 2 ? 3 : [0, 1, 2, 6, 8][how - 2];
  s.config = { ...CONFIG, p, g };
  const n = s.b.calls.length, m = s.a.calls.length;
  G.assert(await refused(s.b.manager.acceptSecretChat(CHAT)) && s.b.calls.slice(n).every((f: any) => f._ === "messages.getDhConfig"), "a chat is not accepted with an unchecked group");
  G.assert(await refused(s.a.manager.requestSecretChat(OTHER)) && s.a.calls.slice(m).every((f: any) => f._ === "messages.getDhConfig"), "and not requested");
}
export async function bad_request() {
  start();
  const s = new Server();
  await s.a.manager.requestSecretChat(OTHER);
  const i = G.choose(BAD.length + GOOD.length);
  const bad = i < BAD.length;
  const v = bad ? BAD[i][1] : GOOD[i - BAD.length];
  await s.requested(bytes(v));
  const r = await refused(s.b.manager.acceptSecretChat(CHAT));
  G.assert(r === bad, "a request is refused exactly when its number is not a good one");
  if (bad) {
    G.assert(s.g_b === undefined, "no answer is given");
    await ended(s.b);
  } else {
    const key = s.b.state.authKey;
    G.assert(key.length === 256 && BigInt.asUintN(64, s.fingerprint) === u(await sha1(key), 12, 8), "the key is of full length and its fingerprint is sent");
  }
}
export async function bad_answer() {
  start();
  const s = new Server();
  await s.a.manager.requestSecretChat(OTHER);
  await s.requested();
  await s.b.manager.acceptSecretChat(CHAT);
  if (G.choose(2)) await s.restart(1);
  const i = G.choose(BAD.length + 3);
  let refusedIt: boolean;
  if (i < BAD.length) refusedIt = await refused(s.accepted(bytes(BAD[i][1])));
  else if (i === BAD.length) refusedIt = await refused(s.accepted(s.g_b, s.fingerprint ^ (1n << 40n)));
  else if (i === BAD.length + 1) refusedIt = await refused(s.accepted(bytes((1n << 2040n) + 1n)));
  else refusedIt = await refused(s.accepted(s.g_b, 0n));
  G.assert(refusedIt, "an answer that is not good, or not the one that was fingerprinted, is refused");
  await ended(s.a);
}

// ---- replacing the key: both sides of an established chat, and the server between them ----
const OLD = (() => {
  const b = new Uint8Array(256);
  for (let i = 0; i < 256; ++i) b[i] = (i * 37 + 11) % 256;
  return b;
})();
class Pair {
  sides: Side[] = [];
  wires: any[][] = [[], []]; // on the way to each
  inbox: Promise<void>[] = [Promise.resolve(), Promise.resolve()];
  said: string[] = ["", ""];
  services = 0;
  fault: any = () => undefined;
  holding = -1;
  held: any[] = [];
  async open(more: any[]) {
    for (const i of [0, 1]) {
      const store = new Store();
      const id = (await sha1(OLD)).subarray(12, 20);
      store.saved.set(CHAT, {
        encryptedChat: { _: "encryptedChat", id: CHAT, access_hash: HASH, date: 1, admin_id: BigInt(SELF), participant_id: BigInt(OTHER), g_a_or_b: new Uint8Array(), key_fingerprint: 0n },
        authKey: OLD.slice(),
        authKeyId: 0n,
        authKeyId_: id.slice(),
        authKeyUseCount: 0,
        isAuthKeyUsed: false,
        authKeyCreatedAt: NOW,
        previousAuthKey: new Uint8Array(),
        previousAuthKeyId_: new Uint8Array(),
        previousAuthKeyDiscardAfterSeqNo: -1,
        isAwaitingNewAuthKeyConfirmation: false,
        a: 0n,
        g: 3,
        prime: big(P),
        pendingExponent: 0n,
        rekeyId: 0n,
        rekeyA: 0n,
        toCommitId: 0n,
        toCommitAuthKey: new Uint8Array(),
        toCommitAuthKeyId: 0n,
        toCommitAuthKeyId_: new Uint8Array(),
        inSeqNo: 0,
        outSeqNo: 0,
        remoteInSeqNo: 0,
        isGapRequested: false,
        gapEndSeqNo: -1,
        pendingMessages: [],
        outgoingMessages: [],
        ...more[i],
      });
      await this.begin(i, new Side(i === 0 ? SELF : OTHER, store));
    }
    return this;
  }
  received: string[][] = [[], []];
  async begin(i: number, s: Side) {
    this.sides[i] = s;
    s.invoke = (f: any) => this.sides[i] === s ? this.invoke(i, f) : new Promise(() => {});
    await s.load();
  }
  // the program of one side ends and is started again
  async restart(i: number) {
    const s = this.sides[i];
    this.received[i].push(...this.texts(s));
    if (this.holding === i) this.held.length = 0;
    await this.begin(i, new Side(s.self, s.store));
    this.inbox[i] = Promise.resolve();
  }
  texts = (s: Side) => s.received.filter((r) => r.type === "secretMessage").map((r) => r.secretMessage.text);
  heard(i: number) {
    return [...this.received[i], ...this.texts(this.sides[i])].join("");
  }
  discarded = 0;
  async invoke(i: number, f: any) {
    if (f._ === "messages.discardEncryption") ++this.discarded;
    if (f.data === undefined) return;
    const what = f._ === "messages.sendEncryptedService" ? this.fault(this.services++, i) : undefined;
    if (what !== "lost" && what !== "vanished") this.wires[1 - i].push(f.data.slice());
    if (what === "lost" || what === "failed") throw new Error("the connection was lost");
    if (what === "never" || what === "vanished") await new Promise(() => {});
    if (this.holding === i) await new Promise((r) => this.held.push(r));
  }
  // one message is handed over; updates are handled one after the other
  async deliver(i: number, at = 0) {
    const [data] = this.wires[i].splice(at, 1);
    const s = this.sides[i];
    this.inbox[i] = this.inbox[i].then(() => s.deliver(data)).catch(() => {});
    await G.settle();
  }
  async say(i: number, text: string) {
    this.said[i] += text;
    this.sides[i].manager.sendSecretMessage(CHAT, text).catch(() => {});
    await G.settle();
  }
  async release() {
    this.holding = -1;
    while (this.held.length) {
      this.held.shift()();
      await G.settle();
    }
  }
  async drain() {
    let n = 0;
    while (this.wires[0].length || this.wires[1].length) {
      G.assert(++n < 60, "the exchange comes to an end");
      await this.deliver(this.wires[0].length ? 0 : 1);
    }
  }
  // whatever happened, they read each other
  async talking() {
    await this.drain();
    for (const i of [0, 1, 0, 1, 0, 1]) {
      await this.say(i, "xyzw"[this.said[i].length % 4]);
      await this.drain();
    }
    G.assert(this.discarded === 0, "the chat goes on");
    G.assert(this.heard(0) === this.said[1] && this.heard(1) === this.said[0], "everything said is heard once and in order");
  }
  state(i: number) {
    return this.sides[i].state;
  }
  replaced() {
    const a = this.state(0), b = this.state(1);
    G.assert(big(a.authKey) !== big(OLD) && big(a.authKey) === big(b.authKey), "both have the same new key");
    for (const s of [a, b]) {
      G.assert(s.previousAuthKey.length === 0, "and keep nothing of the old one");
      G.assert(s.toCommitId === 0n && s.rekeyId === 0n, "and the exchange is over");
    }
  }
}
const DUE = [{ authKeyUseCount: 100 }, { authKeyCreatedAt: NOW - WEEK }];
export async function replacing() {
  start();
  const who = G.choose(2);
  const due = DUE[G.choose(2)];
  const p = await new Pair().open(who === 0 ? [due, {}] : [{}, due]);
  const other = 1 - who;
  // each says something at one moment of the exchange
  const mine = G.choose(5), theirs = G.choose(5);
  await p.say(who, "a");
  for (let phase = 0; phase < 5; ++phase) {
    if (mine === phase) await p.say(who, "b");
    if (theirs === phase) await p.say(other, "c");
    if (p.wires[other].length) await p.deliver(other);
    if (p.wires[who].length) await p.deliver(who);
  }
  await p.talking();
  p.replaced();
}
// both find at the same time that the key is due
export async function crossing() {
  start();
  const first = G.choose(2);
  const p = await new Pair().open([DUE[G.choose(2)], DUE[0]]);
  await p.say(first, "a");
  await p.say(1 - first, "b");
  for (let i = 0; i < 6; ++i) {
    const both = p.wires[0].length > 0 && p.wires[1].length > 0;
    const to = both ? G.choose(2) : p.wires[0].length ? 0 : 1;
    if (p.wires[to].length) await p.deliver(to);
  }
  await p.talking();
  p.replaced();
}
// some of the messages that replace the key do not get through, or get through without our knowing
export async function faults() {
  start();
  const who = G.choose(2);
  const p = await new Pair().open(who === 0 ? [DUE[0], {}] : [{}, DUE[0]]);
  const n = G.choose(4), how = ["lost", "failed"][G.choose(2)];
  const again = G.choose(2) === 1;
  p.fault = (k: number) => k === n || again && k === n + 1 ? how : undefined;
  await p.say(who, "a");
  await p.say(1 - who, "b");
  await p.talking();
  p.replaced();
}
// messages that overtake each other
export async function reordered() {
  start();
  const who = 0;
  const p = await new Pair().open([DUE[0], {}]);
  const other = 1 - who;
  const turn = G.choose(6), back = G.choose(2);
  await p.say(who, "a");
  for (let i = 0; i < 6; ++i) {
    const to = i % 2 === 0 ? other : who;
    await p.say(1 - to, "abcdefgh"[i]);
    if (i === turn) {
      while (p.wires[to].length) await p.deliver(to, back ? p.wires[to].length - 1 : p.wires[to].length > 1 ? 1 : 0);
    } else if (i < 3 && G.choose(2) === 0) continue;
    while (p.wires[to].length) await p.deliver(to);
  }
  await p.talking();
}
// the program of one of them ends in the middle, with a message on its way or not
export async function crashes() {
  start();
  const who = G.choose(2);
  const p = await new Pair().open(who === 0 ? [DUE[0], {}] : [{}, DUE[0]]);
  const other = 1 - who;
  const when = G.choose(8);
  if (when < 4) {
    // while the message that was handed over is not acknowledged
    const reached = G.choose(2) === 0;
    p.fault = (k: number) => k === when ? reached ? "never" : "vanished" : undefined;
    await p.say(who, "a");
    for (let i = 0; i < 4; ++i) for (const to of [other, who]) if (p.wires[to].length) await p.deliver(to);
    await p.restart(when % 2 === 0 ? who : other);
  } else {
    await p.say(who, "a");
    for (let i = 0; i < when - 4; ++i) {
      const to = i % 2 === 0 ? other : who;
      while (p.wires[to].length) await p.deliver(to);
    }
    await p.restart(G.choose(2));
  }
  await p.talking();
  p.replaced();
}
// messages written while others are on their way
export async function queued() {
  start();
  const who = 0, slow = G.choose(2);
  const p = await new Pair().open([DUE[0], {}]);
  const other = 1 - who;
  const from = G.choose(3), to = from + 1 + G.choose(3);
  const count = G.choose(2);
  await p.say(who, "a");
  for (let phase = 0; phase < 6; ++phase) {
    if (phase === from) {
      p.holding = slow;
      if (count) await p.say(slow, "b");
    }
    if (phase === to) await p.release();
    if (p.wires[other].length) await p.deliver(other);
    if (p.wires[who].length) await p.deliver(who);
    if (p.holding === slow && p.held.length) {
      await p.say(slow, "c");
      await p.say(slow, "d");
      if (G.choose(2)) {
        p.held.shift()();
        await G.settle();
      }
    }
  }
  await p.release();
  await p.talking();
  p.replaced();
}
// messages about keys that do not belong to the exchange, or are not good
export async function wrong_exchange() {
  start();
  const s = new Side(SELF);
  const store = (await new Pair().open([DUE[0], {}])).sides[0].store;
  s.store = store;
  const t = await s.restarted();
  let number = 0;
  const say = async (action: any) => {
    const refusedIt = await refused(t.deliver(await encrypted(OLD, serviceLayer(action, 2 * number, 1), false)));
    ++number;
    return refusedIt;
  };
  const read = async (at = t.sent.length - 1) => {
    const f = t.sent[at];
    const plain = await opened(OLD, f.data, true);
    const layer: any = await SecretChats.deserializeType(X, plain.subarray(4, 4 + Number(u(plain, 0, 4))));
    return layer.message.action;
  };
  const unchanged = () => big(t.state.authKey) === big(OLD) && t.state.previousAuthKey.length === 0 && t.discarded === 0;
  const how = G.choose(9);
  if (how < 5) {
    // it asks for a new key, and is answered
    await t.manager.sendSecretMessage(CHAT, "a");
    const request = await read();
    G.assert(request._ === "decryptedMessageActionRequestKey", "a new key is asked for");
    const b = 2345n;
    const g_b = bytes(modExp(3n, b, big(P)));
    const key = bytes(modExp(big(request.g_a), b, big(P)));
    const right = BigInt.asIntN(64, u(await sha1(key), 12, 8));
    const n = t.sent.length;
    if (how === 0) {
      await say({ _: "decryptedMessageActionAcceptKey", exchange_id: request.exchange_id, g_b, key_fingerprint: right });
      const commit = await read();
      G.assert(commit._ === "decryptedMessageActionCommitKey" && commit.exchange_id === request.exchange_id && commit.key_fingerprint === right, "a good answer is committed to, under the old key");
      G.assert(big(t.state.authKey) === big(key) && big(t.state.previousAuthKey) === big(OLD), "the new key is used from then on, and the old one kept until the other side uses the new one");
    } else if (how === 1) {
      await say({ _: "decryptedMessageActionAcceptKey", exchange_id: request.exchange_id + 1n, g_b, key_fingerprint: right });
      G.assert(unchanged() && t.sent.length === n && t.state.rekeyId === request.exchange_id, "an answer to another request is not taken");
    } else {
      const bad = how === 2 ? { g_b, key_fingerprint: right ^ 2n } : how === 3 ? { g_b: bytes(1n), key_fingerprint: right } : { g_b: bytes(big(P) - 1n), key_fingerprint: right };
      await say({ _: "decryptedMessageActionAcceptKey", exchange_id: request.exchange_id, ...bad });
      const answer = await read(n);
      G.assert(unchanged(), "a bad answer does not change the key");
      G.assert(answer._ === "decryptedMessageActionAbortKey" && answer.exchange_id === request.exchange_id, "it is turned down");
    }
    return;
  }
  const a = 2468n;
  const g_a = how === 5 ? bytes(big(P) - 1n) : bytes(modExp(3n, a, big(P)));
  const exchange_id = 5n;
  await say({ _: "decryptedMessageActionRequestKey", exchange_id, g_a });
  const answer = await read(0);
  if (how === 5) {
    G.assert(unchanged() && answer._ === "decryptedMessageActionAbortKey" && answer.exchange_id === exchange_id, "a bad request is turned down");
    return;
  }
  const key = bytes(modExp(big(answer.g_b), a, big(P)));
  const right = BigInt.asIntN(64, u(await sha1(key), 12, 8));
  G.assert(answer._ === "decryptedMessageActionAcceptKey" && answer.exchange_id === exchange_id && answer.key_fingerprint === right && unchanged(), "a good request is answered, and the key kept until the other side commits");
  if (how === 6) {
    await say({ _: "decryptedMessageActionCommitKey", exchange_id, key_fingerprint: right });
    G.assert(big(t.state.authKey) === big(key) && t.discarded === 0, "then it is replaced");
  } else if (how === 7) {
    await say({ _: "decryptedMessageActionCommitKey", exchange_id: exchange_id + 1n, key_fingerprint: right });
    G.assert(unchanged(), "a commit to another exchange is not taken");
  } else {
    G.assert(await say({ _: "decryptedMessageActionCommitKey", exchange_id, key_fingerprint: right ^ 4n }) && t.discarded === 1 && t.state === undefined, "a commit to another key ends the chat");
  }
}
