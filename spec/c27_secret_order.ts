// C27: the messages of a secret chat are delivered once, in the order they were sent, whatever the order they arrive in.
import * as G from "./ghost.ts";
import { SecretChats, X } from "file:///repo/2_tl.ts";
import { SecretChatState } from "file:///repo/client/0_secret_chat_state.ts";
import { CHAT, encrypted, established, HASH, opened, serviceLayer, Side, side, Store, textLayer } from "./secret.ts";
import { u } from "./server.ts";

const NOW = 1700000000000;
const KEY = () => G.bytes(256, 256) as any;
const x = (b: boolean) => b ? 1 : 0;
// the other side, which numbers its messages from `base` and keeps them
class Peer {
  key: any;
  isCreator: boolean; // the peer
  base: number;
  inn: number;
  data: any[] = [];
  constructor(key: any, isCreator: boolean, base: number, inn: number) {
    this.key = key;
    this.isCreator = isCreator;
    this.base = base;
    this.inn = inn;
  }
  async write(text: string) {
    const n = this.base + this.data.length;
    this.data.push(await encrypted(this.key, textLayer(text, 2 * n + x(this.isCreator), 2 * this.inn + x(!this.isCreator)), this.isCreator));
  }
  async open(f: any): Promise<any> {
    const plain = await opened(this.key, f.data, !this.isCreator);
    return await SecretChats.deserializeType(X, plain.subarray(4, 4 + Number(u(plain, 0, 4))));
  }
}
const texts = (s: Side) => s.received.map((r) => r.secretMessage.text).join(",");
const TEXTS = ["a", "b", "c"];
const PREFIX = ["", "a", "a,b", "a,b,c"];

export async function any_order() {
  G.setNow(NOW);
  const key = KEY();
  const isCreator = G.choose(2) === 0;
  const base = G.int(0, 1000000), sent = G.int(0, 1000000);
  const s = await side(isCreator, key, { inSeqNo: base, outSeqNo: sent });
  const peer = new Peer(key, !isCreator, base, sent);
  for (const t of ["a", "b", "c", "d"]) await peer.write(t);
  let top = 0, next = 0, asked = 0;
  const have: boolean[] = [false, false, false, false];
  const requests: number[] = [];
  // what is missing is asked for, and nothing else
  async function arrives(n: number) {
    await s.deliver(peer.data[n]);
    have[n] = true;
    if (n + 1 > top) top = n + 1;
    while (next < 4 && have[next]) ++next;
    while (s.sent.length > asked) {
      const f = s.sent[asked++];
      const layer = await peer.open(f);
      const a = layer.message.action;
      G.assert(f._ === "messages.sendEncryptedService" && a._ === "decryptedMessageActionResend", "something missing is asked for with a service message");
      let count = 0;
      for (let k = 0; k < top; ++k) {
        const m = 2 * (base + k) + x(!isCreator);
        if (G.pure(() => a.start_seq_no <= m && m <= a.end_seq_no)) {
          G.assert(!have[k], "what has come is not asked for");
          requests.push(k);
          ++count;
        }
      }
      G.assert(a.end_seq_no - a.start_seq_no === 2 * (count - 1), "only messages of the other side are asked for");
    }
    G.assert(texts(s) === ["", "a", "a,b", "a,b,c", "a,b,c,d"][next], "what has arrived is delivered once, in order, as far as it is complete");
    G.assert(s.state.inSeqNo === base + next, "and counted");
    const waiting = [0, 1, 2, 3].filter((k) => have[k] && k >= next).length;
    G.assert(s.state.pendingMessages.length === waiting, "what came too early is kept");
  }
  for (let i = 0; i < 3; ++i) await arrives(G.choose(4));
  while (requests.length) {
    const k = requests.shift()!;
    await arrives(k);
  }
  G.assert(next === top, "once what was asked for has come, everything is delivered");
  G.assert(s.state.pendingMessages.length === 0 && s.discarded === 0, "and nothing is left");
}
// a start between any two arrivals
export async function restarts() {
  G.setNow(NOW);
  const key = KEY();
  const isCreator = G.choose(2) === 0;
  let s = await side(isCreator, key);
  const peer = new Peer(key, !isCreator, 0, 0);
  for (const t of TEXTS) await peer.write(t);
  const order = [[0, 1, 2], [2, 1, 0], [1, 0, 2], [2, 0, 1]][G.choose(4)];
  const when = G.choose(3);
  let seen = "";
  for (const [i, n] of order.entries()) {
    await s.deliver(peer.data[n]);
    if (i === when) {
      seen = texts(s);
      s = await s.restarted();
    }
  }
  const all = seen + (seen !== "" && s.received.length ? "," : "") + texts(s);
  G.assert(all === "a,b,c", "a start in between loses nothing and repeats nothing");
  await s.manager.sendSecretMessage(CHAT, "reply");
  const layer = await peer.open(s.sent[s.sent.length - 1]);
  G.assert(layer.in_seq_no === 6 + x(!isCreator), "and what is sent then counts what was received before");
}

// numbers the other side cannot have used
export async function wrong_numbers() {
  G.setNow(NOW);
  const key = KEY();
  const isCreator = G.choose(2) === 0;
  const inSeqNo = G.int(0, 1000), outSeqNo = G.int(0, 1000);
  const s = await side(isCreator, key, { inSeqNo, outSeqNo });
  const out = G.int(-4, 4000), inn = G.int(-4, 4000);
  const rightOut = out >= 0 && out % 2 === x(!isCreator);
  const rightIn = inn >= 0 && inn % 2 === x(isCreator) && inn <= 2 * outSeqNo + x(isCreator);
  const data = await encrypted(key, textLayer("x", out, inn), !isCreator);
  let refused = false;
  try {
    await s.deliver(data);
  } catch {
    refused = true;
  }
  if (!rightOut || !rightIn) {
    G.assert(refused && s.received.length === 0, "a message with an impossible number is refused");
    G.assert(s.discarded === 1 && s.state === undefined, "and ends the chat");
    let again = false;
    try {
      await s.manager.sendSecretMessage(CHAT, "x");
      again = true;
    } catch { /* as it should */ }
    G.assert(!again && s.sent.length === 0, "nothing more is sent in it");
  } else {
    G.assert(!refused && s.discarded === 0, "a message with a possible number is not");
    G.assert(s.received.length === (out === 2 * inSeqNo + x(!isCreator) ? 1 : 0), "the next one is delivered at once");
  }
}
// the other side says it has received fewer messages than it said before
export async function forgetful() {
  G.setNow(NOW);
  const key = KEY();
  const isCreator = G.choose(2) === 0;
  const s = await side(isCreator, key, { outSeqNo: 5 });
  const first = G.choose(6), second = G.choose(6);
  await s.deliver(await encrypted(key, textLayer("a", x(!isCreator), 2 * first + x(isCreator)), !isCreator));
  let refused = false;
  try {
    await s.deliver(await encrypted(key, textLayer("b", 2 + x(!isCreator), 2 * second + x(isCreator)), !isCreator));
  } catch {
    refused = true;
  }
  G.assert(refused === (second < first) && (s.discarded === 1) === refused, "a count that goes back ends the chat");
  G.assert(texts(s) === (refused ? "a" : "a,b"), "what it came with is not delivered");
}
// the other side asks for messages again
export async function resending() {
  G.setNow(NOW);
  const key = KEY();
  const isCreator = G.choose(2) === 0;
  const s = await side(isCreator, key);
  await s.manager.sendSecretMessage(CHAT, "a");
  await s.manager.sendSecretMessage(CHAT, "b", { isSilent: true });
  await s.manager.sendSecretMessage(CHAT, "c");
  const before = s.sent.map((f) => f.data.slice());
  s.sent.length = 0;
  const t = isCreator ? s : await s.restarted();
  const start = G.choose(8) - 2, end = G.choose(7);
  const mine = x(isCreator);
  let refused = false;
  try {
    await t.deliver(await encrypted(key, serviceLayer({ _: "decryptedMessageActionResend", start_seq_no: start, end_seq_no: end }, x(!isCreator), 6 + mine), !isCreator));
  } catch {
    refused = true;
  }
  const possible = start >= 0 && end >= start && start % 2 === mine && end % 2 === mine && end < 6;
  if (!possible) {
    G.assert(refused && t.discarded === 1 && t.sent.length === 0, "a request for messages that were never sent ends the chat");
    return;
  }
  G.assert(!refused && t.discarded === 0, "a possible request does not");
  const from = (start - mine) / 2, to = (end - mine) / 2;
  G.assert(t.sent.length === to - from + 1, "what was asked for is sent, and nothing else");
  for (const [i, f] of t.sent.entries()) {
    G.assert(f._ === "messages.sendEncrypted" && f.peer.chat_id === CHAT && f.peer.access_hash === HASH && G.eqBytes(f.data, before[from + i]) && f.silent === (from + i === 1 ? true : undefined), "in order and as it was");
  }
  G.assert(t.state.outSeqNo === 3, "under their own numbers");
}
// messages written while others are on their way, some of which do not get through
export async function numbering() {
  G.setNow(NOW);
  const key = KEY();
  const isCreator = G.choose(2) === 0;
  const s = await side(isCreator, key);
  const peer = new Peer(key, !isCreator, 0, 0);
  s.hold = true;
  const failing = G.choose(4);
  const together = G.choose(4);
  let failures = 0;
  for (let i = 0; i < 3; ++i) {
    s.manager.sendSecretMessage(CHAT, TEXTS[i]).catch(() => ++failures);
    if (i >= together) {
      await G.settle();
      G.assert(s.held.length === 1, "one message is under way at a time");
    }
  }
  await G.settle();
  for (let i = 0; i < 3; ++i) {
    G.assert(s.held.length === 1 && s.calls.length === i + 1, "they are sent one after the other");
    G.assert(s.state.outSeqNo >= i + 1, "the number of a message is stored before it is sent");
    s.failNext = i === failing ? 1 : 0;
    s.held.shift()();
    await G.settle();
  }
  G.assert(failures === (failing < 3 ? 1 : 0), "a failure is reported to whom it concerns");
  for (let i = 0; i < 3; ++i) {
    const layer = await peer.open(s.calls[i]);
    G.assert(layer.message.message === TEXTS[i] && layer.out_seq_no === 2 * i + x(isCreator), "in the order they were written, with consecutive numbers");
  }
  s.hold = false;
  s.sent.length = 0;
  // one that did not get through can be asked for
  if (failing < 3) {
    const n = 2 * failing + x(isCreator);
    await s.deliver(await encrypted(key, serviceLayer({ _: "decryptedMessageActionResend", start_seq_no: n, end_seq_no: n }, x(!isCreator), x(isCreator)), !isCreator));
    G.assert(s.sent.length === 1 && G.eqBytes(s.sent[0].data, s.calls[failing].data), "one that did not get through can be asked for");
  }
}
// the program ends while a message is on its way
export async function crash_while_sending() {
  G.setNow(NOW);
  const key = KEY();
  const isCreator = G.choose(2) === 0;
  const s = await side(isCreator, key);
  const peer = new Peer(key, !isCreator, 0, 0);
  if (G.choose(2)) await s.manager.sendSecretMessage(CHAT, "before");
  const before = s.sent.length;
  s.hold = true;
  void s.manager.sendSecretMessage(CHAT, "lost?");
  await G.settle();
  G.assert(s.calls.length === before + 1, "the message has been handed over");
  const t = await s.restarted();
  await t.manager.sendSecretMessage(CHAT, "after");
  const one = await peer.open(s.calls[before]), two = await peer.open(t.sent[t.sent.length - 1]);
  G.assert(two.out_seq_no === one.out_seq_no + 2, "a number that may have been used is not used again");
  const n = one.out_seq_no;
  t.sent.length = 0;
  await t.deliver(await encrypted(key, serviceLayer({ _: "decryptedMessageActionResend", start_seq_no: n, end_seq_no: n }, x(!isCreator), x(isCreator)), !isCreator));
  G.assert(t.sent.length === 1 && G.eqBytes(t.sent[0].data, s.calls[before].data), "and the message can be asked for");
}
// what is stored of a chat is what is loaded again
export async function kept() {
  G.setNow(NOW);
  const bytes = () => G.bytes(256, 256) as any;
  const int = () => G.int(-1, 1000000), big = () => G.big(0n, (1n << 64n) - 1n);
  const one = { data: bytes(), isService: G.choose(2) === 0, isSilent: G.choose(2) === 0 }, two = { data: bytes(), isService: false, isSilent: false, file: { _: "inputEncryptedFile", id: big(), access_hash: big() } };
  const pending = [textLayer("p", int(), int()), { _: "encryptedMessage", random_id: big(), chat_id: CHAT, date: 1, bytes: bytes(), file: { _: "encryptedFileEmpty" } }];
  const x: any = {
    ...await established(bytes(), true),
    authKeyId: big(),
    authKeyId_: bytes(),
    authKeyUseCount: int(),
    isAuthKeyUsed: G.choose(2) === 0,
    authKeyCreatedAt: int(),
    previousAuthKey: bytes(),
    previousAuthKeyId_: bytes(),
    previousAuthKeyDiscardAfterSeqNo: int(),
    isAwaitingNewAuthKeyConfirmation: G.choose(2) === 0,
    a: big(),
    g: int(),
    prime: big(),
    pendingExponent: big(),
    rekeyId: big(),
    rekeyA: big(),
    toCommitId: big(),
    toCommitAuthKey: bytes(),
    toCommitAuthKeyId: big(),
    toCommitAuthKeyId_: bytes(),
    inSeqNo: int(),
    outSeqNo: int(),
    remoteInSeqNo: int(),
    isGapRequested: G.choose(2) === 0,
    gapEndSeqNo: int(),
    pendingMessages: [pending],
    outgoingMessages: [[4, one], [7, two]],
  };
  const s = new Store();
  await SecretChatState.load(s.copy(x)).commit(s as any);
  const y = s.saved.get(CHAT);
  for (const k of Object.keys(x)) {
    const v = x[k];
    if (v instanceof Uint8Array) G.assert(G.eqBytes(y[k], v), "every key and identifier is kept");
    else if (k === "pendingMessages") {
      const [layer, message] = y[k][0];
      G.assert(y[k].length === 1 && layer.out_seq_no === (pending[0] as any).out_seq_no && layer.message.message === "p" && G.eqBytes(message.bytes, (pending[1] as any).bytes), "messages that wait are kept");
    } else if (k === "outgoingMessages") {
      G.assert(y[k].length === 2, "sent messages are kept");
      for (const [n, m] of y[k]) {
        const o = n === 4 ? one : two;
        G.assert((n === 4 || n === 7) && G.eqBytes(m.data, o.data) && m.isService === o.isService && m.isSilent === o.isSilent && (n === 4 ? m.file === undefined : m.file.id === two.file.id && m.file.access_hash === two.file.access_hash), "with their data and file");
      }
    } else if (k === "encryptedChat") G.assert(y[k]._ === v._ && y[k].id === v.id && y[k].access_hash === v.access_hash && y[k].admin_id === v.admin_id, "the chat is kept");
    else G.assert(y[k] === v, "every count and number is kept");
  }
}
