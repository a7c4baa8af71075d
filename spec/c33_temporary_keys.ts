// C33: with perfect forward secrecy, requests travel over temporary keys that the server has bound to the account's key, each introduced anew, and never over anything else.
import * as G from "./ghost.ts";
import { concat, ige256Decrypt } from "file:///repo/0_deps.ts";
import { ClientEncrypted } from "file:///repo/client/2_client_encrypted.ts";
import { ClientPlain } from "file:///repo/client/1_client_plain.ts";
import { le, msgKeyOf, open, seal, sha1, u } from "./server.ts";

const NOW = 1700000000000;
const DAY = 86400;
const u64 = (v: bigint) => v < 0n ? v + (1n << 64n) : v;
const id32 = (v: number) => le(BigInt(v), 4);
const keyOf = (n: number) => new Uint8Array(256).map((_, i) => (i * (2 * n + 7) + 3 + 31 * n) % 256);
const text = (t: string) => {
  const s = [...t].map((c) => c.charCodeAt(0));
  const b = new Uint8Array(Math.ceil((s.length + 1) / 4) * 4);
  b[0] = s.length;
  b.set(s, 1);
  return b;
};
const nearest = (v: number) => concat([id32(0x8E1A1775), new Uint8Array([2, 78, 76, 0]), le(BigInt(v), 4), le(2n, 4)]);
// the value of a TL string of bytes
const bytesAt = (b: Uint8Array, at: number) => b[at] < 254 ? b.subarray(at + 1, at + 1 + b[at]) : b.subarray(at + 4, at + 4 + Number(u(b, at + 1, 3)));

// ---- the binding message, written from the description of auth.bindTempAuthKey (MTProto 1.0, sealed with the permanent key) ----
async function openBinding(key: Uint8Array, packet: Uint8Array) {
  const m = packet.subarray(8, 24);
  const a = await sha1(concat([m, key.subarray(0, 32)]));
  const b = await sha1(concat([key.subarray(32, 48), m, key.subarray(48, 64)]));
  const c = await sha1(concat([key.subarray(64, 96), m]));
  const d = await sha1(concat([m, key.subarray(96, 128)]));
  return ige256Decrypt(packet.subarray(24), concat([a.subarray(0, 8), b.subarray(8, 20), c.subarray(4, 16)]), concat([a.subarray(8, 20), b.subarray(0, 8), c.subarray(16, 20), d.subarray(0, 8)]));
}

// numbers that are all different
let counter = 0;
function random(a: any) {
  const b = new Uint8Array(a.buffer, a.byteOffset, a.byteLength);
  counter += 7;
  for (let i = 0; i < b.length; i++) b[i] = (counter * (i + 3) + (counter >> 8) * 5 + i) % 256;
  return a;
}
type Temp = { n: number; key: Uint8Array; id: bigint; salt: bigint; bound: boolean; introduced: boolean; gone: boolean; made: number; requests: number };
class Server {
  now = NOW;
  skew = 0; // how far the server's clock is ahead
  perm = keyOf(0);
  permId = 0n;
  made = 0; // permanent keys made
  temps: Temp[] = [];
  client: any;
  // the line
  isConnected = false;
  opened = 0;
  stateChangeHandler: any;
  callback: any;
  out: Uint8Array[] = [];
  inbox: Uint8Array[] = [];
  waiting: any = null;
  next = 0x6553F10000000001n;
  answered = 0;
  bindings = 0;
  refused: string[] = [];
  // what goes wrong
  failures = 0; // of the next creations of keys
  trouble: null | ((m: any, t: Temp) => Promise<boolean>) = null;
  hold = false; // answers to bindings wait
  held: any[] = [];

  open() {
    this.isConnected = true;
    this.opened++;
  }
  close() {
    this.isConnected = false;
    this.inbox.length = 0;
    this.out.length = 0;
    this.held.length = 0;
    this.waiting?.reject(new Error("closed"));
    this.waiting = null;
  }
  initialize() {}
  send(b: Uint8Array) {
    this.out.push(b.slice());
  }
  receive() {
    const p = Promise.withResolvers<Uint8Array>();
    const b = this.inbox.shift();
    if (b) p.resolve(b);
    else this.waiting = p;
    return p.promise;
  }
  give(b: Uint8Array) {
    const w = this.waiting;
    this.waiting = null;
    if (w) w.resolve(b);
    else this.inbox.push(b);
  }

  keyOf = keyOf;
  async start(hasKey: boolean, drawn = false) {
    G.setNow(this.now);
    counter = 0;
    if (!drawn) (crypto as any).getRandomValues = random;
    const s = this;
    this.permId = u(await sha1(this.perm), 12, 8);
    G.method(ClientPlain, "connect", async function () {});
    G.method(ClientPlain, "disconnect", function () {});
    G.method(ClientPlain, "createAuthKey", async function (isTemporary: boolean) {
      if (s.failures > 0) {
        s.failures--;
        throw new Error("lost");
      }
      if (!isTemporary) {
        s.made++;
        return [s.perm.slice(), 1n];
      }
      const n = s.temps.length + 1, key = s.keyOf(n);
      const t = { n, key, id: 0n, salt: BigInt(100 + n), bound: false, introduced: false, gone: false, made: s.now + s.skew, requests: 0 };
      s.temps.push(t);
      t.id = u(await sha1(key), 12, 8);
      return [key.slice(), t.salt];
    });
    let first = true;
    const line = () => {
      const l = first ? this : {}; // the others make keys, by contract
      first = false;
      return { connection: l, transport: l, dcId: 2 };
    };
    this.client = new ClientEncrypted("2" as any, 1, { transportProvider: line as any, isPerfectForwardSecrecyEnabled: true, appVersion: "a", deviceModel: "d", langCode: "en", langPack: "", systemLangCode: "en", systemVersion: "1" });
    if (hasKey) await this.client.setAuthKey(this.perm.slice());
  }
  say(t: Temp, session: bigint, ...bodies: Uint8Array[]) {
    return this.sayAll(t, session, bodies);
  }
  // several messages travel in a container
  async sayAll(t: Temp, session: bigint, bodies: Uint8Array[]) {
    const messages = bodies.map((body) => {
      const id = this.next + (BigInt(Math.floor(this.now / 1000) + this.skew - NOW / 1000) << 32n);
      this.next += 4n;
      return concat([le(id, 8), le(1n, 4), le(BigInt(body.length), 4), body]);
    });
    let message = messages[0];
    if (messages.length > 1) {
      const inner = concat([id32(0x73F1F8DC), id32(messages.length), ...messages]);
      message = concat([le(this.next, 8), le(0n, 4), le(BigInt(inner.length), 4), inner]);
      this.next += 4n;
    }
    const padding = (16 - (16 + message.length + 12) % 16) % 16 + 12;
    this.give(await seal(t.key, concat([le(t.salt, 8), le(session, 8), message, new Uint8Array(padding)]), 8));
  }
  error(t: Temp, m: any, code: number, message: string) {
    this.refused.push(message);
    return this.say(t, m.session, concat([id32(0xF35C6D01), le(m.id, 8), id32(0x2144CA19), id32(code), text(message)]));
  }
  // the server does all it has to do, and the client what it can do without time passing
  async run() {
    await G.settle();
    for (let i = 0; this.out.length && i < 40; i++) {
      await this.take(this.out.shift()!);
      await G.settle();
    }
  }
  async take(packet: Uint8Array) {
    const id = u(packet, 0, 8);
    G.assert(id !== this.permId, "the permanent key seals no packet");
    const t = this.temps.find((t) => t.id === id)!;
    G.assert(t !== undefined, "packets are sealed with keys that the server knows");
    G.assert(this.now / 1000 + this.skew < t.made / 1000 + DAY, "no key is used when it has expired");
    if (t.gone) return this.give(le((1n << 32n) - 404n, 4));
    const plain = await open(t.key, packet, 0);
    const mk = await msgKeyOf(t.key, plain, 0);
    G.assert(mk.every((v: number, i: number) => v === packet[8 + i]), "packets open with their key");
    await this.message(t, plain, 16, u(plain, 0, 8), u(plain, 8, 8));
  }
  async message(t: Temp, plain: Uint8Array, at: number, salt: bigint, session: bigint): Promise<void> {
    const m = { id: u(plain, at, 8), session, body: plain.subarray(at + 16, at + 16 + Number(u(plain, at + 12, 4))) };
    const name = u(m.body, 0, 4);
    if (name === 0x73F1F8DCn) {
      let p = at + 24;
      for (let i = 0; i < Number(u(m.body, 4, 4)); i++) {
        await this.message(t, plain, p, salt, session);
        p += 16 + Number(u(plain, p + 12, 4));
      }
      return;
    }
    if (name === 0x62D6B459n) return; // acknowledgements
    if (this.trouble && await this.trouble(m, t)) return;
    if (salt !== t.salt) return this.say(t, session, concat([id32(0xEDAB447B), le(m.id, 8), id32(0), id32(48), le(t.salt, 8)]));
    const drift = Number(m.id >> 32n) - (Math.floor(this.now / 1000) + this.skew);
    if (drift < -300 || drift > 30) return this.say(t, session, concat([id32(0xA7EFF811), le(m.id, 8), id32(0), id32(drift < 0 ? 16 : 17)]));
    if (name === 0xF3427B8Cn) return this.say(t, session, concat([id32(0x347773C5), le(m.id, 8), m.body.subarray(4, 12)]));
    if (name === 0xCDD42A05n) return this.bind(t, m);
    G.assert(t.bound, "nothing is asked for over a key that is not bound");
    if (!t.bound) return this.error(t, m, 401, "AUTH_KEY_PERM_EMPTY");
    const introduced = name === 0xC1CD5EA9n;
    G.assert(t.introduced || introduced, "the first request over a key introduces the client");
    t.introduced = true;
    t.requests++;
    G.assert(u(m.body, m.body.length - 4, 4) === 0x1FB33026n, "what is asked for is sent");
    await this.say(t, session, concat([id32(0xF35C6D01), le(m.id, 8), nearest(++this.answered)]));
  }
  async bind(t: Temp, m: any) {
    const b = m.body, sealed = bytesAt(b, 24);
    const plain = await openBinding(this.perm, sealed);
    const inner = plain.subarray(32, 72);
    const mk = (await sha1(plain.subarray(0, 72))).subarray(4, 20);
    const good = u(b, 4, 8) === this.permId && u(sealed, 0, 8) === this.permId && mk.every((v: number, i: number) => v === sealed[8 + i]) && plain.length === 80 && u(plain, 16, 8) === m.id && u(plain, 24, 4) === 0n && u(plain, 28, 4) === 40n &&
      u(inner, 0, 4) === 0x75A3F765n && u(inner, 4, 8) === u(b, 12, 8) && u(inner, 12, 8) === t.id && u(inner, 20, 8) === this.permId && u(inner, 28, 8) === m.session && u(inner, 36, 4) === u(b, 20, 4);
    G.assert(good, "the binding is sealed with the account's key and names the message, the session, the key and its end");
    const end = Number(u(b, 20, 4)) - Math.floor(this.now / 1000);
    G.assert(end > 0 && end <= DAY, "a key is bound for a day at most");
    if (!good) return this.error(t, m, 400, "ENCRYPTED_MESSAGE_INVALID");
    this.bindings++;
    const answer = () => {
      t.bound = true;
      return this.say(t, m.session, concat([id32(0xF35C6D01), le(m.id, 8), id32(0x997275B5)]));
    };
    if (this.hold) this.held.push(answer);
    else await answer();
  }
  watch(p: Promise<any>) {
    const r: any = { state: "pending" };
    p.then((v: any) => {
      r.state = "fulfilled";
      r.value = v;
    }, (e: any) => {
      r.state = "rejected";
      r.error = e;
    });
    return r;
  }
  connect() {
    return this.watch(this.client.connect());
  }
  request() {
    return this.watch(this.client.invoke({ _: "help.getNearestDc" }));
  }
  get last() {
    return this.temps[this.temps.length - 1];
  }
  async answers(what: string) {
    const r = this.request();
    await this.run();
    G.assert(r.state === "fulfilled" && r.value.this_dc === this.answered, what);
    G.assert(this.last.bound && this.last.introduced, "requests are answered over the last key, bound");
  }
}

// the binding to any key, at any time, whatever the numbers (sessions with any key are C15)
export async function sealed() {
  const s = new Server();
  s.perm = G.bytes(256, 256) as any;
  const key = keyOf(1);
  G.assume(s.perm[0] !== key[0]);
  s.now = G.int(1000000000000, 2100000000999);
  await s.start(true, true);
  s.connect();
  await G.settle();
  G.assert(s.out.length === 1 && s.temps.length === 1, "one packet is sent");
  const packet = s.out[0], t = s.temps[0];
  G.assert(G.eqRange(packet, 0, await sha1(key), 12, 8), "it is sealed with the temporary key");
  const p = await open(key, packet, 0);
  G.assert(G.eqRange(packet, 8, await msgKeyOf(key, p, 0), 0, 16), "it opens");
  G.assert(u(p, 0, 8) === t.salt && u(p, 8, 8) === u64(s.client.session.id), "the salt and the session are sent");
  const b = p.subarray(32), n = Number(u(p, 28, 4));
  G.assert(n === 4 + 8 + 8 + 4 + 108 && u(b, 0, 4) === 0xCDD42A05n && u(b, 24, 1) === 104n, "it holds the binding");
  const sealed = b.subarray(25, 129), perm = (await sha1(s.perm)).subarray(12, 20);
  G.assert(G.eqRange(b, 4, perm, 0, 8) && G.eqRange(sealed, 0, perm, 0, 8), "the permanent key is named");
  const plain = await openBinding(s.perm, sealed);
  G.assert(G.eqRange(sealed, 8, (await sha1(plain.subarray(0, 72))).subarray(4, 20), 0, 16), "the binding opens with the permanent key");
  G.assert(plain.length === 80 && u(plain, 24, 4) === 0n && u(plain, 28, 4) === 40n && u(plain, 32, 4) === 0x75A3F765n, "it is one message");
  G.assert(G.eqRange(plain, 16, p, 16, 8), "it names the message it is sent in");
  G.assert(G.eqRange(plain, 36, b, 12, 8), "it names the nonce");
  G.assert(G.eqRange(plain, 44, packet, 0, 8), "it names the temporary key");
  G.assert(G.eqRange(plain, 52, perm, 0, 8), "it names the permanent key");
  G.assert(G.eqRange(plain, 60, p, 8, 8), "it names the session");
  G.assert(G.eqRange(plain, 68, b, 20, 4) && Number(u(b, 20, 4)) === Math.floor(s.now / 1000) + DAY, "it names the end of the key");
}
// connecting, with or without a permanent key, creations of keys failing, the clock going on
export async function connecting() {
  const s = new Server();
  const hasKey = G.choose(2) === 1;
  await s.start(hasKey);
  s.failures = G.choose(3);
  const c = s.connect();
  await s.run();
  G.assert(c.state === "fulfilled", "the client connects");
  G.assert(s.made === (hasKey ? 0 : 1), "a permanent key is made when there is none");
  G.assert(s.temps.length === 1 && s.last.bound && s.bindings === 1 && s.answered === 0, "connecting binds a temporary key");
  await s.answers("a request is answered");
  await s.answers("the next request is answered");
  G.assert(s.temps.length === 1 && s.refused.length === 0, "one key is enough");
}
// the clock ticks at any moment of connecting
export async function ticking() {
  const s = new Server();
  await s.start(true);
  const c = s.connect();
  const n = G.choose(60);
  for (let i = 0; i < n; i++) await 0;
  s.now += 1000;
  G.setNow(s.now);
  await s.run();
  G.assert(c.state === "fulfilled" && s.refused.length === 0, "the client connects");
  await s.answers("a request is answered");
}
// a clock that is wrong, or a salt that is not current any more
export async function repeated() {
  const s = new Server();
  await s.start(true);
  const k = G.choose(3);
  if (k === 0) s.skew = 4000;
  else if (k === 1) s.skew = -4000;
  else {
    s.trouble = async (_m, t) => {
      t.salt = 77n;
      s.trouble = null;
      return false;
    };
  }
  const c = s.connect();
  await s.run();
  G.assert(c.state === "fulfilled" && s.refused.length === 0, "the client connects");
  await s.answers("a request is answered");
}
// the server loses the key, or the binding
export async function lost() {
  const s = new Server();
  await s.start(true);
  s.connect();
  await s.run();
  if (G.choose(2)) await s.answers("a request is answered");
  const t = s.last;
  const forgets = G.choose(2) === 1, two = G.choose(2) === 1;
  const ids: any[] = [];
  if (forgets) {
    s.trouble = async (m, t_) => {
      if (t_ !== t) return false;
      ids.push(m);
      if (ids.length === (two ? 2 : 1)) await s.sayAll(t, m.session, ids.map((m) => concat([id32(0xF35C6D01), le(m.id, 8), id32(0x2144CA19), id32(401), text("AUTH_KEY_PERM_EMPTY")])));
      return true;
    };
  } else t.gone = true;
  const r = s.request(), q = two ? s.request() : r;
  await s.run();
  G.assert(q.state === "rejected", "a request over a key that is lost fails");
  G.assert(r.state === "rejected", "a request over a key that is lost fails");
  await s.run();
  G.assert(s.temps.length === 2 && s.last !== t && s.last.bound, "another key is made and bound");
  await s.answers("the next request is answered");
}
// the server refuses the binding
export async function refused() {
  const s = new Server();
  await s.start(true);
  let n = 1 + G.choose(2);
  s.trouble = async (m, t) => {
    if (n === 0) return false;
    n--;
    await s.error(t, m, 400, "ENCRYPTED_MESSAGE_INVALID");
    return true;
  };
  const c = s.connect();
  await s.run();
  if (c.state === "rejected" && s.client.isDisconnected) {
    s.connect();
    await s.run();
  }
  if (s.client.isDisconnected) {
    s.connect();
    await s.run();
  }
  await s.answers("a request is answered");
}
// a key is replaced before it expires, whenever it is looked at; requests meanwhile wait for the next one
export async function replaced() {
  const s = new Server();
  await s.start(true);
  s.connect();
  await s.run();
  await s.answers("a request is answered");
  const t = s.last;
  s.hold = G.choose(2) === 1;
  let replaced = false;
  // the key is looked at every minute; from here it has between two and three minutes left
  s.now = NOW + DAY * 1000 - [121, 122, 124, 125, 126, 130, 150, 179][G.choose(8)] * 1000;
  G.setNow(s.now);
  G.timers(60000);
  await s.run();
  G.assert(s.last === t, "a key is kept as long as it is good");
  for (let i = 0; i < 3; i++) {
    s.now += 59999;
    G.setNow(s.now);
    await s.answers("requests are answered");
    s.now++;
    G.setNow(s.now);
    G.timers(60000);
    await s.run();
    if (s.last !== t && !replaced) {
      replaced = true;
      if (s.hold) {
        const r = s.request(), q = s.request();
        await s.run();
        G.assert(s.held.length === 1 && r.state === "pending" && q.state === "pending", "requests wait for the binding");
        s.hold = false;
        await s.held[0]();
        await s.run();
        G.assert(r.state === "fulfilled" && q.state === "fulfilled" && s.answered === q.value.this_dc && r.value.this_dc + 1 === q.value.this_dc, "requests that waited are answered");
      }
      await s.answers("requests are answered over the new key");
    }
  }
  G.assert(replaced && s.temps.length === 2 && s.refused.length === 0, "a key is replaced once, before it expires");
}
// the binding fails for good, or the connection is lost during it
export async function failing() {
  const s = new Server();
  await s.start(true);
  const lost = G.choose(2) === 1;
  s.trouble = async (m, t) => {
    s.trouble = null;
    if (lost) {
      s.close();
      s.stateChangeHandler(false);
    } else await s.error(t, m, 500, "INTERNAL");
    return true;
  };
  const c = s.connect();
  await s.run();
  for (let i = 0; i < 3; i++) {
    G.timers(5000);
    await s.run();
  }
  G.assert(c.state === "rejected", "connecting fails when the key is not bound");
  if (G.choose(2)) {
    const d = s.connect();
    await s.run();
    G.assert(d.state === "fulfilled" && s.temps.length === 2, "connecting again binds another key");
  }
  await s.answers("a request is answered");
  G.assert(s.temps.length === 2, "another key is bound before anything is asked for");
}
