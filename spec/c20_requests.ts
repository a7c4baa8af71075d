// C20: every request is settled exactly once, by the reply to it; what the server rejects is sent again; nothing is left when the connection ends.
import * as G from "./ghost.ts";
import { concat } from "file:///repo/0_deps.ts";
import { ClientEncrypted } from "file:///repo/client/2_client_encrypted.ts";
import { le, open, seal, signed, u, Wire } from "./server.ts";

const NOW = 1700000000000;
const KEY = new Uint8Array(256).map((_, i) => (i * 7 + 3) % 256);
const u64 = (v: bigint) => v < 0n ? v + (1n << 64n) : v;
const id32 = (v: number) => le(BigInt(v), 4);
const long = (v: bigint) => le(u64(v), 8);

// ---- the server ----
type Msg = { id: bigint; seqno: bigint; body: Uint8Array; salt: bigint; session: bigint };
class Server {
  wire = new Wire();
  client: any;
  read = 0;
  seen: Msg[] = []; // content messages, containers taken apart
  containers: bigint[] = [];
  next = 0x6553F10000000001n;
  settled: string[] = [];
  async connect(onUpdate?: any) {
    G.setNow(NOW);
    this.client = new ClientEncrypted("2" as any, 1, { transportProvider: (() => ({ connection: this.wire, transport: this.wire, dcId: 2 })) as any, appVersion: "a", deviceModel: "d", langCode: "en", langPack: "", systemLangCode: "en", systemVersion: "1" });
    if (onUpdate) this.client.handlers.onUpdate = onUpdate;
    await this.client.setAuthKey(KEY.slice());
    this.client.serverSalt = 5n;
    await this.client.connect();
  }
  // starts a request; its outcome is recorded every time it is settled
  request() {
    const r: any = { state: "pending", value: undefined, error: undefined };
    r.promise = this.client.invoke({ _: "help.getNearestDc" }).then((v: any) => {
      r.state = "fulfilled";
      r.value = v;
    }, (e: any) => {
      r.state = "rejected";
      r.error = e;
    });
    return r;
  }
  async sent(n: number) {
    while (this.wire.sent.length < n) await this.wire.nextSend();
    for (; this.read < n; this.read++) {
      const plain = await open(KEY, this.wire.sent[this.read], 0);
      this.take(plain, 16, signed(u(plain, 0, 8), 64n), signed(u(plain, 8, 8), 64n));
    }
    await G.settle();
  }
  take(plain: Uint8Array, at: number, salt: bigint, session: bigint) {
    const id = u(plain, at, 8), seqno = u(plain, at + 8, 4), len = Number(u(plain, at + 12, 4));
    const body = plain.subarray(at + 16, at + 16 + len);
    if (u(body, 0, 4) === 0x73F1F8DCn) {
      this.containers.push(id);
      const n = Number(u(body, 4, 4));
      let p = at + 24;
      for (let i = 0; i < n; i++) {
        this.take(plain, p, salt, session);
        p += 16 + Number(u(plain, p + 12, 4));
      }
      G.assert(p === at + 16 + len, "a container holds exactly its messages");
    } else this.seen.push({ id, seqno, body: G.snap(body) as any, salt, session });
  }
  get requests() {
    return this.seen.filter((m) => u(m.body, 0, 4) !== 0x62D6B459n);
  }
  get acks() {
    const all: bigint[][] = [];
    for (const m of this.seen) {
      if (u(m.body, 0, 4) !== 0x62D6B459n) continue;
      const ids: bigint[] = [];
      for (let i = 0; i < Number(u(m.body, 8, 4)); i++) ids.push(u(m.body, 12 + 8 * i, 8));
      all.push(ids);
    }
    return all;
  }
  // sends one message, in a container or not, and waits until it has been handled
  async say(body: Uint8Array, inContainer = false) {
    const id = this.next;
    this.next += 4n;
    let message = concat([le(id, 8), le(1n, 4), le(BigInt(body.length), 4), body]);
    if (inContainer) {
      const inner = concat([id32(0x73F1F8DC), id32(1), message]);
      message = concat([le(this.next, 8), le(0n, 4), le(BigInt(inner.length), 4), inner]);
      this.next += 4n;
    }
    const padding = (16 - (16 + message.length + 12) % 16) % 16 + 12;
    const plain = concat([le(77n, 8), long(this.client.session.id), message, new Uint8Array(padding)]);
    await this.wire.deliver(await seal(KEY, plain, 8));
    await G.settle();
    return id;
  }
  result(to: bigint, v: number, inContainer = false) {
    return this.say(concat([id32(0xF35C6D01), le(to, 8), nearest(v)]), inContainer);
  }
}
const nearest = (v: number) => concat([id32(0x8E1A1775), new Uint8Array([2, 78, 76, 0]), le(BigInt(v), 4), le(2n, 4)]);
const text = (s: number[]) => {
  const b = new Uint8Array(Math.ceil((s.length + 1) / 4) * 4);
  b[0] = s.length;
  b.set(s, 1);
  return b;
};
const FLOOD = [70, 76, 79, 79, 68, 95, 87, 65, 73, 84, 95, 51]; // FLOOD_WAIT_3
const value = () => G.int(0, 0x7FFFFFFF);

// two requests answered in either order, each answer repeated
export async function replies() {
  const s = new Server();
  await s.connect();
  const a = s.request(), b = s.request();
  await s.sent(2);
  const [x, y] = s.requests;
  G.assert(s.requests.length === 2 && x.id < y.id, "each request is sent once, in order");
  const va = value(), vb = value(), other = value();
  const c = G.bool();
  if (G.bool()) {
    await s.result(x.id, va, c);
    G.assert(a.state === "fulfilled" && a.value.this_dc === va, "a request resolves to the reply to it");
    G.assert(b.state === "pending", "a reply settles no other request");
    await s.result(x.id, other, c);
    await s.result(y.id, vb, c);
  } else {
    await s.result(y.id, vb, c);
    G.assert(b.state === "fulfilled" && b.value.this_dc === vb, "a request resolves to the reply to it");
    G.assert(a.state === "pending", "a reply settles no other request");
    await s.result(y.id, other, c);
    await s.result(x.id, va, c);
  }
  G.assert(a.state === "fulfilled" && a.value.this_dc === va && b.state === "fulfilled" && b.value.this_dc === vb, "every request resolves to the reply to it, once");
  await s.result(x.id + 400n, other);
  G.assert(s.wire.sent.length === 2, "replies make the client send nothing by themselves");
}
export async function error_replies() {
  const s = new Server();
  await s.connect();
  const a = s.request(), b = s.request();
  await s.sent(2);
  const [x, y] = s.requests;
  const code = G.int(-1000, 1000), vb = value();
  await s.say(concat([id32(0xF35C6D01), le(x.id, 8), id32(0x2144CA19), le(BigInt(code < 0 ? code + 4294967296 : code), 4), text(FLOOD)]));
  G.assert(a.state === "rejected" && a.error.errorCode === code && a.error.errorMessage === "FLOOD_WAIT_3", "an error rejects the request it answers, with its code and message");
  G.assert(b.state === "pending", "an error settles no other request");
  await s.result(y.id, vb);
  G.assert(b.state === "fulfilled" && b.value.this_dc === vb && a.state === "rejected", "other requests go on");
}
// a rejected salt: the server's new salt is used and the message is sent again
export async function bad_salt() {
  const s = new Server();
  const salts: bigint[] = [];
  await s.connect();
  s.client.handlers.onNewServerSalt = (v: bigint) => salts.push(v);
  const a = s.request();
  await s.sent(1);
  const x = s.requests[0];
  G.assert(x.salt === 5n, "the salt that was set is used");
  const salt = G.big(-(1n << 63n), (1n << 63n) - 1n);
  const resent = s.sent(2);
  await s.say(concat([id32(0xEDAB447B), le(x.id, 8), id32(1), id32(48), long(salt)]), G.bool());
  await resent;
  G.assert(s.requests.length === 2, "the rejected message is sent again once");
  const y = s.requests[1];
  G.assert(y.salt === salt && salts.length === 1 && salts[0] === salt, "the new salt is used and announced");
  G.assert(y.id > x.id && G.eqBytes(y.body, x.body), "it is sent again unchanged under a new identifier");
  G.assert(a.state === "pending", "it is not settled by the rejection");
  const v = value();
  await s.result(x.id, value());
  G.assert(a.state === "pending", "the rejected identifier is forgotten");
  await s.result(y.id, v);
  G.assert(a.state === "fulfilled" && a.value.this_dc === v, "it resolves to the reply to what was sent again");
}
// other rejections of a message
export async function bad_messages() {
  const s = new Server();
  await s.connect();
  const a = s.request(), b = s.request();
  await s.sent(2);
  const [x, y] = s.requests;
  const code = [16, 17, 48, 32, 20][G.choose(5)];
  const all = code !== 16 && code !== 48; // the session is started anew: everything is sent again
  const session = x.session;
  const resent = s.sent(all ? 4 : 3);
  await s.say(concat([id32(0xA7EFF811), le(x.id, 8), id32(1), id32(code)]));
  await resent;
  const again = s.requests.slice(2);
  G.assert(again.length === (all ? 2 : 1), "the rejected messages are sent again once");
  G.assert(G.eqBytes(again[0].body, x.body), "they are sent again unchanged");
  if (all) {
    G.assert(again[0].session === again[1].session && again[0].session === s.client.session.id, "the session is started anew when the protocol asks for it");
    G.assert(again[0].id < again[1].id && again[0].seqno === 1n && again[1].seqno === 3n, "a new session counts from the start");
  } else G.assert(again[0].session === session && again[0].id > y.id, "the session goes on otherwise");
  G.assert(a.state === "pending" && b.state === "pending", "a rejection settles nothing");
  const va = value(), vb = value();
  await s.result(again[0].id, va);
  await s.result(all ? again[1].id : y.id, vb);
  G.assert(a.state === "fulfilled" && a.value.this_dc === va && b.state === "fulfilled" && b.value.this_dc === vb, "every request resolves to the reply to it");
}
// a request of the server's is acknowledged once, with the next message; a rejected container is sent again whole
export async function acknowledgements() {
  const s = new Server();
  await s.connect();
  const a = s.request();
  await s.sent(1);
  const r1 = await s.result(s.requests[0].id, 1, G.bool());
  const r2 = await s.say(concat([id32(0x9EC20908), le(1n, 8), le(2n, 8), le(9n, 8)]));
  s.request();
  await s.sent(2);
  G.assert(s.acks.length === 1 && s.acks[0].length === 2 && s.acks[0][0] === r1 && s.acks[0][1] === r2, "what was received is acknowledged with the next message");
  G.assert(s.containers.length === 1 && s.requests.length === 2 && s.requests[1].salt === 9n, "the request goes along");
  const c = s.request();
  await s.sent(3);
  G.assert(s.acks.length === 1, "nothing is acknowledged twice");
  if (G.bool()) {
    const resent = s.sent(4);
    await s.say(concat([id32(0xEDAB447B), le(s.containers[0], 8), id32(2), id32(48), le(9n, 8)]));
    await resent;
    G.assert(s.requests.length === 4 && G.eqBytes(s.requests[3].body, s.requests[1].body), "the request of a rejected container is sent again");
    G.assert(s.acks.length === 2 && s.acks[1].length === 2 && s.acks[1][0] === r1 && s.acks[1][1] === r2, "the acknowledgements of a rejected container are sent again");
  }
  G.assert(a.state === "fulfilled" && c.state === "pending", "acknowledgements settle no request");
}
// nothing stays pending when the client is disconnected or the connection is lost
export async function endings() {
  const s = new Server();
  await s.connect();
  const a = s.request(), b = s.request();
  await s.sent(2);
  const [x] = s.requests;
  const v = value();
  await s.result(x.id, v);
  const how = G.choose(2);
  if (how === 0) s.client.disconnect();
  else {
    s.wire.lose();
    for (let i = 0; i < 4; i++) {
      G.timers(5000);
      await G.settle();
    }
    G.assert(s.wire.isConnected, "a lost connection is opened again");
  }
  await G.settle();
  G.assert(a.state === "fulfilled" && a.value.this_dc === v, "what was answered stays answered");
  G.assert(b.state === "rejected" && b.error.name === "ConnectionError", "what was not answered is rejected");
  if (how === 0) {
    const c = s.request();
    await G.settle();
    G.assert(c.state === "rejected", "a disconnected client accepts no request");
    await s.client.connect();
  }
  const d = s.request();
  await s.sent(3);
  const last = s.requests[2];
  await s.result(last.id, v);
  G.assert(d.state === "fulfilled" && d.value.this_dc === v, "requests are answered after connecting again");
  G.assert(b.state === "rejected", "a settled request stays settled");
}
// a transport that fails to send
export async function failing_transport() {
  const s = new Server();
  await s.connect();
  const n = G.choose(3);
  let left = n === 2 ? 1000 : n, tries = 0;
  const real = s.wire.send.bind(s.wire);
  s.wire.send = (b: any) => {
    tries++;
    if (left-- > 0) throw new Error("cannot send");
    return real(b);
  };
  const a = s.request();
  if (n < 2) {
    await s.sent(1);
    G.assert(tries === n + 1 && s.requests.length === 1, "a request that could not be sent is tried again");
    const v = value();
    await s.result(s.requests[0].id, v);
    G.assert(a.state === "fulfilled" && a.value.this_dc === v, "it is answered like any other");
  } else {
    await a.promise;
    G.assert(a.state === "rejected" && a.error.name === "RetryError" && tries === 10, "it is rejected after ten tries");
    G.assert(s.requests.length === 0, "nothing was sent");
  }
}
// the first requests of a connection introduce the client; later ones are sent as they are, until the server asks for it again
export async function introductions() {
  const s = new Server();
  await s.connect();
  const a = s.request();
  await s.sent(1);
  const introduced = (m: Msg) => u(m.body, 0, 4) === 0xC1CD5EA9n && u(m.body, m.body.length - 4, 4) === 0x1FB33026n;
  const bare = (m: Msg) => m.body.length === 4 && u(m.body, 0, 4) === 0x1FB33026n;
  G.assert(introduced(s.requests[0]), "the first request introduces the client");
  await s.result(s.requests[0].id, 1);
  const b = s.request();
  await s.sent(2);
  G.assert(bare(s.requests[1]), "later requests are sent as they are");
  const v = value();
  if (G.bool()) {
    const resent = s.sent(3);
    const CNI = [67, 79, 78, 78, 69, 67, 84, 73, 79, 78, 95, 78, 79, 84, 95, 73, 78, 73, 84, 69, 68];
    await s.say(concat([id32(0xF35C6D01), le(s.requests[1].id, 8), id32(0x2144CA19), id32(400), text(CNI)]));
    await resent;
    G.assert(s.requests.length === 3 && introduced(s.requests[2]) && b.state === "pending", "a request the server wants introduced is sent again, introduced");
    await s.result(s.requests[2].id, v);
  } else await s.result(s.requests[1].id, v);
  G.assert(a.state === "fulfilled" && b.state === "fulfilled" && b.value.this_dc === v, "every request resolves to the reply to it");
}
// updates among replies
export async function updates_and_replies() {
  const s = new Server();
  const got: any[] = [];
  await s.connect((v: any) => {
    got.push(v);
  });
  const a = s.request();
  await s.sent(1);
  const v = value(), w = value();
  const c = G.bool();
  // updateShort{ updateUserStatus{ user_id, userStatusOffline{ was_online } }, date }
  const short = (n: number) => concat([id32(0x78D4DEC1), id32(0xE5BDF8DE), le(7n, 8), id32(0x008C703F), le(BigInt(n), 4), id32(9)]);
  const r1 = await s.say(short(v), c);
  const r2 = await s.result(s.requests[0].id, w);
  const r3 = await s.say(short(w), c);
  G.assert(got.length === 2 && got[0].update.status.was_online === v && got[1].update.status.was_online === w, "each update is handed on once, in order");
  G.assert(a.state === "fulfilled" && a.value.this_dc === w, "replies among updates settle their requests");
  s.request();
  await s.sent(2);
  G.assert(s.acks.length === 1 && s.acks[0].length === 3 && s.acks[0][0] === r1 && s.acks[0][1] === r2 && s.acks[0][2] === r3, "updates are acknowledged once");
}
