// C22: what the client remembers is read back at once, and saved by a commit.
import * as G from "./ghost.ts";
import { StorageOperations } from "file:///repo/client/0_storage_operations.ts";
import { StorageMemory } from "file:///repo/storage/2_storage_memory.ts";

const I32 = 2147483647;
// A store whose reads and writes take time and may fail; its contents are those of the memory store (C21).
class Slow {
  inner = new StorageMemory();
  mustSerialize: boolean;
  isMemory = false;
  supportsFiles = true;
  reads = 0;
  writes = 0;
  failAt = -1;
  held: any[] = [];
  holdReads = false;
  holdWrites = false;
  constructor(mustSerialize: boolean) {
    this.mustSerialize = mustSerialize;
  }
  initialize() {}
  close() {}
  branch(id: string) {
    return this.inner.branch(id);
  }
  async get(key: any) {
    ++this.reads;
    const v = this.inner.get(key);
    if (this.holdReads) await new Promise((r) => this.held.push(r));
    return v;
  }
  async set(key: any, value: any) {
    const n = this.writes++;
    if (this.holdWrites) await new Promise((r) => this.held.push(r));
    if (n === this.failAt) throw new Error("the disk is full");
    this.inner.set(key, value);
  }
  incr(key: any, by: any) {
    return this.inner.incr(key, by);
  }
  getMany(filter: any, params?: any) {
    return this.inner.getMany(filter, params);
  }
  async release() {
    this.holdReads = this.holdWrites = false;
    while (this.held.length) {
      this.held.shift()();
      await G.settle();
    }
  }
}
// the contract of a pooled map over a list: the function has been applied to every element when it is over, and it fails if one failed
function pooled() {
  G.override("utilities/0_misc.ts#awaitablePooledMap", async (_n: number, list: any, f: any) => {
    const all: any[] = [];
    for await (const x of list) all.push(f(x));
    const results = await Promise.allSettled(all);
    const values: any[] = [];
    for (const r of results) {
      if (r.status === "rejected") throw new AggregateError([r.reason]);
      values.push(r.value);
    }
    return values;
  });
}
const id = () => G.big(-(1n << 63n), (1n << 63n) - 1n);
const open = (slow: Slow) => new StorageOperations(slow as any);
// the maps, by kind: drawn key, drawn value
function entry(ops: any, kind: number): any {
  if (kind === 0) return { map: ops.channelPts, key: [id()], value: G.int(0, I32) };
  if (kind === 1) return { map: ops.usernames, key: [G.str()], value: [G.int(1, I32), new Date(G.int(0, 1e13))] };
  if (kind === 2) return { map: ops.peers, key: [G.int(-I32, I32)], value: [{ type: "private", id: G.int(1, I32) }, id()] };
  if (kind === 3) return { map: ops.phoneNumbers, key: [G.str()], value: [G.int(1, I32), new Date(G.int(0, 1e13))] };
  return { map: ops.translations, key: [G.str(), G.str()], value: { version: G.int(0, I32), translations: [], date: new Date(0) } };
}
const KINDS = 5;
const PATHS = ["channelPts", "usernames", "peers", "phoneNumbers", "translations"];
const MAPS = ["channelPts", "usernames", "peers", "phoneNumbers", "translations"];

export async function map_reads() {
  pooled();
  const slow = new Slow(true);
  const ops: any = open(slow);
  const kind = G.choose(KINDS);
  const e = entry(ops, kind);
  const stored = G.choose(2) === 1;
  const old = { stored: true };
  if (stored) slow.inner.set([PATHS[kind], ...e.key], old);
  const before = G.choose(2) === 1; // the new value is set before the read rather than while it is under way
  slow.holdReads = true;
  if (before) e.map.set(e.key, e.value);
  const read = e.map.get(e.key);
  await G.settle();
  const during = G.choose(2) === 1;
  if (!before && during) e.map.set(e.key, e.value);
  await slow.release();
  const first = await read;
  const set = before || during;
  G.assert(!before || first === e.value, "a value that has been set is what a later read gives");
  G.assert(set || first === (stored ? old : null), "a value that was not set is the stored one");
  const again = await e.map.get(e.key);
  G.assert(again === (set ? e.value : stored ? old : null), "later reads give the value set last");
  G.assert(e.map.getSync(e.key) === again, "the synchronous read agrees");
  await ops.commit(true);
  const next: any = open(slow);
  const loaded = await next[MAPS[kind]].get(e.key);
  G.assert(loaded === (set ? e.value : stored ? old : null), "after a commit the next start reads the value set last");
}
export async function map_keys() {
  pooled();
  const slow = new Slow(true);
  const ops: any = open(slow);
  const a = G.choose(KINDS), b = G.choose(KINDS);
  const x = entry(ops, a), y = entry(ops, b);
  let same = a === b;
  for (let i = 0; same && i < x.key.length; i++) if (x.key[i] !== y.key[i]) same = false;
  x.map.set(x.key, x.value);
  y.map.set(y.key, y.value);
  G.assert((await x.map.get(x.key)) === (same ? y.value : x.value), "another key or kind does not disturb a value");
  await ops.commit(true);
  const next: any = open(slow);
  G.assert((await next[MAPS[a]].get(x.key)) === (same ? y.value : x.value), "nor after a commit");
  G.assert((await next[MAPS[b]].get(y.key)) === y.value, "both are saved");
}
function auth() {
  return { apiId: G.int(1, I32), authKey: G.bytes(256), dc: "2", isBot: G.bool(), userId: G.int(1, I32) };
}
export async function account_reads() {
  pooled();
  const slow = new Slow(true);
  const old = auth(), value = auth();
  const stored = G.choose(2) === 1;
  if (stored) slow.inner.set(["auth"], old);
  const ops: any = open(slow);
  slow.holdReads = true;
  const before = G.choose(2) === 1;
  if (before) await ops.auth.set(value);
  const read = ops.auth.get();
  await G.settle();
  const during = G.choose(2) === 1;
  let setting: any = null;
  if (!before && during) setting = ops.auth.set(value);
  await slow.release();
  const first = await read;
  await setting;
  const set = before || during;
  G.assert(set || first === (stored ? old : null), "an account that was not set is the stored one");
  G.assert((await ops.auth.get()) === (set ? value : stored ? old : null), "later reads give the account set last");
  if (set || stored) G.assert(ops.auth.mustGet() === (set ? value : old), "and so does the synchronous read");
  else G.assert(ops.auth.mustGet().userId === 0 && ops.auth.mustGet().dc === null, "no account is an empty one");
  await ops.commit(true);
  const next: any = open(slow);
  await next.initialize();
  const now = await next.auth.get();
  G.assert(now === (set ? value : stored ? old : null), "after a commit the next start finds the account set last");
  if (set || stored) {
    G.assert(next.isBot === (set ? value : old).isBot, "with its kind");
    G.assert((await next.getAccountId()) === (set ? value : old).userId, "and its identifier");
    G.assert(next.auth.authKeyId === ops.auth.authKeyId || !G.eqBytes(now.authKey, (await ops.auth.get()).authKey), "and its key");
  }
}
export async function account_update() {
  pooled();
  const slow = new Slow(true);
  const ops: any = open(slow);
  const value = auth();
  await ops.auth.set(value);
  await ops.commit(true);
  const user = G.int(1, I32), key = G.bytes(256);
  const k0 = ops.auth.authKeyId;
  await ops.auth.update((v: any) => {
    v.userId = user;
    v.authKey = key;
  });
  const saved = slow.writes;
  await ops.commit(true);
  G.assert(slow.writes === saved + 1, "an account that was changed is saved by the next commit");
  const next: any = open(slow);
  await next.initialize();
  G.assert((await next.auth.get()).userId === user && G.eqBytes((await next.auth.get()).authKey, key), "with the change");
  G.assert(next.auth.authKeyId === ops.auth.authKeyId, "the key's identifier follows the key");
  await ops.auth.set(null);
  G.assert(ops.auth.authKeyId === null, "no account, no key identifier");
  await ops.commit(true);
  G.assert((await open(slow).auth.get()) === null, "a removed account stays removed");
  G.assert(k0 !== null, "a key has an identifier");
}
// a commit that fails, and one during which values change
export async function commit_failure() {
  pooled();
  const slow = new Slow(true);
  const ops: any = open(slow);
  const a = id(), b = id();
  const v1 = G.int(0, I32), v2 = G.int(0, I32), w = G.int(0, I32);
  G.assume(a !== b);
  const who = auth();
  await ops.auth.set(who);
  ops.channelPts.set([a], v1);
  ops.channelPts.set([b], w);
  slow.failAt = G.choose(4);
  slow.holdWrites = true;
  let failed = false;
  const commit = ops.commit(true).catch(() => {
    failed = true;
  });
  await G.settle();
  const change = G.choose(3); // none, while the writes are under way, or after they are over
  if (change === 1) ops.channelPts.set([a], v2);
  await slow.release();
  await commit;
  await G.settle();
  if (change === 2) ops.channelPts.set([a], v2);
  G.assert(failed === (slow.failAt < 3), "a commit fails exactly when a write failed");
  const expected = change === 0 ? v1 : v2;
  G.assert((await ops.channelPts.get([a])) === expected && (await ops.channelPts.get([b])) === w, "a failure is not seen by reads");
  slow.failAt = -1;
  await ops.commit(true);
  const next: any = open(slow);
  G.assert((await next.channelPts.get([a])) === expected, "the next commit saves what the failed one did not, in its newest form");
  G.assert((await next.channelPts.get([b])) === w, "and everything else");
  G.assert((await next.auth.get()) === who, "and the account");
}
export async function account_commit_race() {
  pooled();
  const slow = new Slow(true);
  const ops: any = open(slow);
  const one = auth(), two = auth();
  await ops.auth.set(one);
  slow.holdWrites = true;
  const commit = ops.commit(true);
  await G.settle();
  await ops.auth.set(two);
  const second = G.choose(2) === 1 ? ops.commit(true) : null; // asked for while the first is under way
  await slow.release();
  await commit;
  await second;
  if (second === null) await ops.commit(true);
  G.assert((await open(slow).auth.get()) === two, "an account changed while it was being saved is saved again");
}
export async function commit_when() {
  pooled();
  const slow = new Slow(true);
  const ops: any = open(slow);
  const t0 = G.int(0, 4e12), dt = G.int(0, 600000);
  G.setNow(t0);
  await ops.commit();
  G.assert(slow.writes === 0, "nothing to save, nothing written");
  const a = id();
  ops.channelPts.set([a], 1);
  await ops.commit();
  G.assert(slow.writes === 1, "the first commit saves");
  G.setNow(t0 + dt);
  await ops.commit(true);
  G.assert(slow.writes === 1, "what was saved is not written again");
  ops.channelPts.set([a], 2);
  await ops.commit();
  G.assert((slow.writes === 2) === (dt >= 300000), "later ones save at most every five minutes");
  await ops.commit(true);
  G.assert(slow.writes === 2 && (await open(slow).channelPts.get([a])) === 2, "unless they are told to");
}
export async function reset_forgets() {
  pooled();
  const slow = new Slow(true);
  const ops: any = open(slow);
  const kind = G.choose(KINDS);
  const e = entry(ops, kind);
  e.map.set(e.key, e.value);
  await ops.auth.set(auth());
  if (G.choose(2) === 1) await ops.commit(true);
  await ops.setServerSalt(id());
  if (G.choose(2) === 1) G.assert((await ops.getAccountId()) === ops.auth.mustGet().userId, "the account is known");
  const pending = G.choose(2) === 1;
  if (pending) e.map.set(e.key, e.value);
  await ops.reset();
  G.assert(ops.auth.authKeyId === null, "a reset forgets the key");
  G.assert((await e.map.get(e.key)) === null && e.map.getSync(e.key) === null, "a reset forgets every value");
  G.assert((await ops.auth.get()) === null && ops.auth.authKeyId === null && (await ops.getAccountId()) === null, "and the account");
  G.assert((await ops.getServerSalt()) === null, "and what was stored directly");
  await ops.commit(true);
  let left = 0;
  for await (const _ of await slow.getMany({ prefix: [] })) ++left;
  G.assert(left === 0, "and a later commit brings nothing back");
}
// ---- objects ----
const num = () => G.int(-I32 - 1, I32);
function state(): any {
  return { _: "updates.state", pts: num(), qts: num(), date: num(), seq: num(), unread_count: num() };
}
function rle() {
  // the contract of the run-length coding (C05): decoding undoes encoding
  const known: [Uint8Array, Uint8Array][] = [];
  G.override("utilities/0_rle.ts#rleEncode", (b: Uint8Array) => {
    const out = G.bytes(0, 2 * 64);
    for (const [o, k] of known) G.assume(!G.eqBytes(o, out) || G.eqBytes(k, b));
    known.push([out, G.snap(b)]);
    return out;
  });
  G.override("utilities/0_rle.ts#rleDecode", (b: Uint8Array) => {
    for (const [o, k] of known) if (o === b) return k;
    for (const [o, k] of known) if (G.eqBytes(o, b)) return k;
    throw new TypeError("not run-length coded");
  });
}
function sameState(a: any, b: any) {
  return G.pure(() => a !== null && a._ === b._ && a.pts === b.pts && a.qts === b.qts && a.date === b.date && a.seq === b.seq && a.unread_count === b.unread_count);
}
export async function objects() {
  rle();
  const slow = new Slow(G.choose(2) === 1);
  const ops: any = open(slow);
  G.assert((await ops.getState()) === null, "nothing before it is set");
  const a = state(), b = state();
  await ops.setState(a);
  G.assert(sameState(await ops.getState(), a), "an object is read back");
  await ops.setState(b);
  G.assert(sameState(await open(slow).getState(), b), "and so is the one that replaced it, after a restart");
  const call = { _: "groupCallDiscarded", id: id(), access_hash: id(), duration: num() };
  const k1 = id(), k2 = id();
  await ops.setGroupCall(k1, call);
  await ops.setGroupCallAccessHash(k1, call.access_hash);
  const got = await ops.getGroupCall(k2);
  G.assert((got === null) === (k1 !== k2), "an object is found under its own key only");
  G.assert(got === null || G.pure(() => got._ === call._ && got.id === call.id && got.access_hash === call.access_hash && got.duration === call.duration), "whole");
  G.assert((await ops.getGroupCallAccessHash(k2)) === (k1 === k2 ? call.access_hash : null), "values too");
  await ops.setGroupCall(k1, null);
  G.assert((await ops.getGroupCall(k1)) === null, "a removed object is gone");
  G.assert(sameState(await ops.getState(), b), "without disturbing the others");
}
export async function messages() {
  rle();
  const slow = new Slow(G.choose(2) === 1);
  const ops: any = open(slow);
  const CHANNEL = -1000000000000;
  const c1 = G.choose(2) === 1 ? G.int(CHANNEL + 1, 1e12) : CHANNEL - G.int(1, 1e12), c2 = G.int(-2e12, 1e12);
  const m1 = G.int(1, I32), m2 = G.int(1, I32);
  const one = { _: "messageEmpty", id: m1 };
  await ops.setMessage(c1, m1, one);
  const got = await ops.getMessage(c2, m2);
  const same = G.pure(() => c1 === c2 && m1 === m2);
  G.assert((got !== null) === same, "a message is found under its own chat and number only");
  G.assert(got === null || G.pure(() => got._ === "messageEmpty" && got.id === m1), "whole");
  const chat = await ops.getMessageChat(m2);
  G.assert(chat === (G.pure(() => m1 === m2 && c1 > CHANNEL) ? c1 : null), "its chat is known from its number, except in channels, which number their own");
  if (G.choose(2) === 1) await ops.deleteMessages();
  else await ops.setMessage(c1, m1, null);
  G.assert((await ops.getMessage(c1, m1)) === null && (await ops.getMessageChat(m1)) === null, "a deleted message leaves nothing");
}
// ---- stored updates ----
export async function update_order() {
  rle();
  const slow = new Slow(false);
  const ops: any = open(slow);
  const box = id(), other = id();
  G.assume(box !== other);
  const N = 3;
  const list: any[] = [];
  for (let i = 0; i < N; i++) {
    G.setNow(G.int(1.6e12, 4e12)); // the clock may be set back
    const kind = G.choose(3);
    const u: any = kind === 0 ? { _: "updateConfig" } : kind === 1 ? { _: "updateDeleteMessages", messages: [], pts: G.int(1, I32), pts_count: 0 } : { _: "updateNewStoryReaction", qts: G.int(1, I32) };
    list.push(u);
    await ops.setUpdate(box, u);
    if (i === 0) await ops.setUpdate(other, { _: "updateConfig" });
  }
  for (const u of list) {
    const first = await ops.getFirstUpdate(box);
    G.assert(first !== null && first[1] === u, "updates come back in the order they came, none lost");
    await ops.set(first[0], null);
  }
  G.assert((await ops.getFirstUpdate(box)) === null, "and once only");
  const boxes = await ops.getUpdateBoxIds();
  G.assert(boxes.size === 1 && boxes.has(other), "other boxes are separate");
  await ops.deleteUpdates();
  G.assert((await ops.getFirstUpdate(other)) === null, "deleting removes them");
}
// ---- files ----
export async function files() {
  const slow = new Slow(true);
  const ops: any = open(slow);
  const f = id(), g = id();
  const n = 1 + G.choose(3);
  const parts: Uint8Array[] = [];
  const chunk = G.int(1, 1 << 20);
  for (let i = 0; i < n; i++) {
    parts.push(G.bytes(0, 1 << 20));
    await ops.saveFilePart(f, i, parts[i]);
  }
  await ops.setFilePartCount(f, n, chunk);
  const info = await ops.getFile(g);
  G.assert((info !== null) === (f === g), "a file is found under its own identifier only");
  G.assert(info === null || G.pure(() => info[0] === n && info[1] === chunk), "with its number and size of parts");
  const offset = G.choose(n + 1);
  let i = offset;
  for await (const part of ops.iterFileParts(f, n, offset, undefined)) {
    G.assert(i < n && G.eqBytes(part, parts[i]), "its parts come back in order, whole");
    ++i;
  }
  G.assert(i === n, "all of them, from the one asked for");
  await ops.deleteFiles();
  G.assert((await ops.getFile(f)) === null, "a deleted file is gone");
}
export async function references() {
  const slow = new Slow(true);
  const ops: any = open(slow);
  const sender = G.int(1, I32);
  G.assert((await ops.getLastMinPeerReference(sender)) === null, "nothing seen, nothing known");
  const n = 1 + G.choose(2);
  let best = -1, t = -1, chat = 0;
  const chats: number[] = [];
  for (let i = 0; i < n; i++) {
    const now = G.int(0, 4e12), m = G.int(1, I32), c = [-5, 7][G.choose(2)];
    G.assume(now > t);
    t = now;
    G.setNow(now);
    await ops.addMinPeerReference(c, sender, m);
    best = m;
    chat = c;
    chats.push(c);
  }
  G.setNow(t + 1);
  await ops.addMinPeerReference(9, sender + 1, 1);
  const got = await ops.getLastMinPeerReference(sender);
  G.assert(got !== null && G.pure(() => got.chatId === chat && got.messageId === best), "the place a sender was last seen at");
}
export async function direct_values() {
  const slow = new Slow(G.choose(2) === 1);
  const ops: any = open(slow);
  const salt = id(), a = id(), h = id(), b = id(), h2 = id(), name = G.str(), premium = G.bool();
  await ops.setServerSalt(salt);
  await ops.setIsPremium(premium);
  G.setNow(1e12);
  await ops.updateStickerSetName(a, h, name);
  const c = G.int(-1e12, 1e12), m = G.int(1, I32), d = G.int(0, 4e12), c2 = G.int(-1e12, 1e12);
  await ops.setVoiceTranscriptionReference(c, m, new Date(d), a);
  const next: any = open(slow);
  G.assert((await next.getServerSalt()) === salt, "the salt is kept");
  G.assert((await next.getIsPremium()) === premium, "the kind of the account is kept");
  const got = await next.getStickerSetName(b, h2);
  const same = G.pure(() => a === b && h === h2);
  G.assert((got !== null) === same && (got === null || got[0] === name), "a set's name is kept under the set");
  G.assert((await next.getVoiceTranscriptionReference(c2, m, new Date(d))) === (c === c2 ? a : null), "a transcription is kept under its message");
}
