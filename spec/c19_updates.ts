// C19: every update the server numbers reaches the handler exactly once and in order, whatever is lost, repeated or reordered on the way.
import * as G from "./ghost.ts";
import { UpdateManager } from "file:///repo/client/2_update_manager.ts";

const MAX = 1000000000;
const box = (id: bigint) => id.toString();

// ---- storage under the control of the contract: it keeps what it is given and records every write ----
class Store {
  isBot = false;
  persisted: any = null;
  pts = new Map<string, number>();
  stored: { boxId: bigint; id: number; update: any }[] = [];
  next = 0;
  log: any[];
  constructor(log: any[]) {
    this.log = log;
  }
  channelPts = {
    get: (k: bigint[]) => Promise.resolve(this.pts.has(box(k[0])) ? this.pts.get(box(k[0]))! : null),
    set: (k: bigint[], v: number) => {
      this.pts.set(box(k[0]), v);
      this.log.push({ k: "channel", id: k[0], pts: v });
    },
  };
  getState() {
    return Promise.resolve(this.persisted === null ? null : { ...this.persisted });
  }
  setState(s: any) {
    this.persisted = { ...s };
    this.log.push({ k: "state", pts: s.pts, qts: s.qts, seq: s.seq });
    return Promise.resolve();
  }
  setUpdate(boxId: bigint, update: any) {
    this.stored.push({ boxId, id: this.next++, update });
    this.log.push({ k: "stored", update });
    return Promise.resolve();
  }
  getFirstUpdate(boxId: bigint) {
    for (const u of this.stored) if (u.boxId === boxId) return Promise.resolve([[u.id], u.update]);
    return Promise.resolve(null);
  }
  getUpdateBoxIds() {
    return Promise.resolve(new Set(this.stored.map((u) => u.boxId)));
  }
  set(key: number[], value: any) {
    G.assert(value === null, "a stored update is only ever removed");
    const at = this.stored.findIndex((u) => u.id === key[0]);
    G.assert(at >= 0, "only a stored update is removed");
    this.log.push({ k: "removed", update: this.stored[at].update });
    this.stored.splice(at, 1);
    return Promise.resolve();
  }
}
const state = (pts: number, qts: number, seq: number, date = 1) => ({ _: "updates.state", pts, qts, date, seq, unread_count: 0 });

class World {
  log: any[] = [];
  store = new Store(this.log);
  delivered: any[] = [];
  calls: any[] = [];
  answer: any = null; // (call) => answer
  um: any;
  peersKnown = true;
  constructor(guarantee: boolean) {
    const none = () => {};
    const c: any = {
      id: 1,
      storage: this.store,
      messageStorage: { setPeer: none, setMessage: none, deleteMessages: () => Promise.resolve(), addMinPeerReference: none, usernames: { set: none }, peers: { get: () => Promise.resolve(this.peersKnown ? [1] : null) } },
      guaranteeUpdateDelivery: guarantee,
      dropPendingUpdates: false,
      setConnectionState: none,
      resetConnectionState: none,
      getSelfId: () => Promise.resolve(1),
      getInputPeer: () => Promise.resolve({ _: "inputPeerChannel", channel_id: 5n, access_hash: 6n }),
      isDisconnected: () => false,
      invoke: (f: any) => {
        this.calls.push(f);
        return Promise.resolve(this.answer(f));
      },
    };
    this.um = new UpdateManager(c);
    this.um.setUpdateHandler((update: any) =>
      Promise.resolve(() => {
        this.delivered.push(update);
        this.log.push({ k: "handled", update });
        return Promise.resolve();
      })
    );
  }
  async receive(updates: any, checkGap = true) {
    const p = Promise.withResolvers<void>();
    this.um.processUpdates(updates, checkGap, null, p.resolve);
    await p.promise;
    await G.settle();
  }
}
const del = (pts: number, pts_count: number, tag = 0) => ({ _: "updateDeleteMessages", messages: [tag], pts, pts_count });
const short = (update: any) => ({ _: "updateShort", update, date: 1 });
const difference = (other_updates: any[], st: any, slice = false) => slice ? { _: "updates.differenceSlice", new_messages: [], new_encrypted_messages: [], other_updates, chats: [], users: [], intermediate_state: st } : { _: "updates.difference", new_messages: [], new_encrypted_messages: [], other_updates, chats: [], users: [], state: st };
const times = (w: World, tag: number) => w.delivered.filter((u) => u.messages[0] === tag).length;

// one numbered update of the account, in any state of the client: the step of an induction over histories
export async function one_update() {
  const w = new World(false);
  const P = G.int(1, MAX), n = G.int(1, 1000), p = G.int(1, MAX);
  w.store.persisted = state(P, 3, 4);
  const S = G.int(1, 2 * MAX);
  G.assume(S >= p && S >= P);
  w.answer = () => difference([], state(S, 3, 4));
  await w.receive(short(del(p, n)));
  if (p === P + n) {
    G.assert(w.delivered.length === 1 && w.delivered[0].pts === p, "the next update is delivered once");
    G.assert(w.calls.length === 0, "nothing is fetched when nothing is missing");
    G.assert(w.store.persisted.pts === p, "the state moves on to it");
  } else if (p <= P) {
    G.assert(w.delivered.length === 0, "an update already applied is not delivered again");
    G.assert(w.calls.length === 0, "nothing is fetched for an old update");
    G.assert(w.store.persisted.pts === P, "an old update leaves the state alone");
  } else {
    G.assert(w.calls.length === 1 && w.calls[0]._ === "updates.getDifference", "the missing updates are fetched");
    G.assert(G.pure(() => w.calls[0].pts === P && w.calls[0].qts === 3), "they are fetched from the client's state");
    G.assert(w.delivered.length === 0, "what the difference covers is not delivered from the live update");
    G.assert(w.store.persisted.pts === S, "the state is the server's");
  }
  G.assert(G.pure(() => w.store.persisted.qts === 3 && w.store.persisted.seq === 4), "the other counters are left alone");
}
// three consecutive updates of the account of which any may be lost, repeated or reordered; a difference brings the rest
export async function account_history() {
  const w = new World(G.bool());
  const P = G.int(1, MAX);
  const ns = [G.int(1, 1000), G.int(1, 1000), G.int(1, 1000)];
  const us: any[] = [];
  let at = P;
  for (let i = 0; i < 3; i++) {
    at += ns[i];
    us.push(del(at, ns[i], i));
  }
  w.store.persisted = state(P, 3, 4);
  let known = 0; // what the server has sent so far
  const sliced = G.bool();
  w.answer = (f: any) => {
    const rest: any[] = [];
    for (let i = 0; i < known; i++) if (us[i].pts > f.pts) rest.push(us[i]);
    if (!rest.length) return { _: "updates.differenceEmpty", date: 1, seq: 4 };
    if (sliced && rest.length > 1) return difference([rest[0]], state(rest[0].pts, 3, 4), true);
    return difference(rest, state(us[known - 1].pts, 3, 4));
  };
  for (let i = 0; i < 3; i++) {
    const k = G.choose(4);
    if (k === 3) continue;
    if (k + 1 > known) known = k + 1;
    await w.receive(short(us[k]));
    // a pause of any length is a prefix: whatever the state passed was delivered
    for (let j = 0; j < 3; j++) G.assert(times(w, j) === (us[j].pts <= w.store.persisted.pts ? 1 : 0), "exactly the updates the state covers were delivered, once each");
  }
  known = 3;
  await w.receive({ _: "updatesTooLong" });
  G.assert(w.delivered.length === 3, "every update is delivered exactly once");
  for (let j = 0; j < 3; j++) G.assert(w.delivered[j].messages[0] === j, "updates are delivered in order");
  G.assert(w.store.persisted.pts === at, "the state is that of the last update");
  G.assert(w.store.stored.length === 0, "no update is left in the store");
}
// a queue-numbered update (secret chats, bots)
export async function one_queued_update() {
  const w = new World(false);
  const Q = G.int(1, MAX), q = G.int(1, MAX);
  w.store.persisted = state(7, Q, 4);
  const S = G.int(1, 2 * MAX);
  G.assume(S >= q && S >= Q);
  w.answer = () => difference([], state(7, S, 4));
  await w.receive(short({ _: "updateBotStopped", user_id: 1n, date: 1, stopped: true, qts: q }));
  if (q === Q + 1) {
    G.assert(w.delivered.length === 1 && w.calls.length === 0, "the next update is delivered once");
    G.assert(w.store.persisted.qts === q, "the state moves on to it");
  } else if (q <= Q) {
    G.assert(w.delivered.length === 0 && w.calls.length === 0, "an update already applied is not delivered again");
    G.assert(w.store.persisted.qts === Q, "an old update leaves the state alone");
  } else {
    G.assert(w.calls.length === 1 && w.calls[0]._ === "updates.getDifference", "the missing updates are fetched");
    G.assert(w.calls[0].qts === Q && w.calls[0].pts === 7, "they are fetched from the client's state");
    G.assert(w.delivered.length === 0, "what the difference covers is not delivered from the live update");
    G.assert(w.store.persisted.qts === S, "the state is the server's");
  }
  G.assert(w.store.persisted.pts === 7, "the other counters are left alone");
}
// a numbered container of updates
export async function one_container() {
  const w = new World(false);
  const Q = G.int(1, MAX), first = G.int(0, MAX), last = G.int(0, MAX);
  G.assume(last >= first);
  w.store.persisted = state(7, 3, Q);
  const S = G.int(0, 2 * MAX);
  G.assume(S >= Q);
  w.answer = () => difference([], state(7, 3, S));
  const inner = { _: "updateUserTyping", user_id: 1n, action: { _: "sendMessageTypingAction" } };
  await w.receive(G.bool() ? { _: "updatesCombined", updates: [inner], users: [], chats: [], date: 9, seq_start: first, seq: last } : { _: "updates", updates: [inner], users: [], chats: [], date: 9, seq: first });
  const to = w.delivered.length;
  if (first === 0) G.assert(to === 1 && w.calls.length === 0 && w.store.persisted.seq === Q, "an unnumbered container is applied");
  else if (first === Q + 1) {
    G.assert(to === 1 && w.calls.length === 0, "the next container is applied");
    G.assert(w.store.persisted.seq >= first, "the state moves on to it");
  } else if (first <= Q) G.assert(to === 0 && w.calls.length === 0 && w.store.persisted.seq === Q, "a container already applied is ignored");
  else {
    G.assert(w.calls.length === 1 && w.calls[0]._ === "updates.getDifference", "missing containers are fetched");
    G.assert(to === (S + 1 === first ? 1 : 0), "a container is applied after the gap is filled only if it is the next");
  }
}
export async function container_number() {
  const w = new World(false);
  const Q = G.int(1, MAX), n = G.int(0, 100);
  w.store.persisted = state(7, 3, Q);
  const inner = { _: "updateUserTyping", user_id: 1n, action: { _: "sendMessageTypingAction" } };
  const combined = { _: "updatesCombined", updates: [inner], users: [], chats: [], date: 9, seq_start: Q + 1, seq: Q + 1 + n };
  await w.receive(combined);
  await w.receive(combined);
  G.assert(w.delivered.length === 1, "a repeated container is applied once");
  G.assert(w.store.persisted.seq === Q + 1 + n, "a combined container moves the state to its last number");
  await w.receive({ _: "updates", updates: [inner], users: [], chats: [], date: 9, seq: Q + 2 + n });
  G.assert(w.delivered.length === 2 && w.calls.length === 0, "the container after a combined one is the next");
}
// one numbered update of a channel
export async function one_channel_update() {
  const w = new World(false);
  const P = G.int(1, MAX), n = G.int(1, 1000), p = G.int(1, MAX);
  const known = G.bool();
  w.store.persisted = state(7, 3, 4);
  if (known) w.store.pts.set("5", P);
  w.store.pts.set("6", 77);
  const S = G.int(1, 2 * MAX);
  G.assume(S >= p && S >= P);
  w.answer = () => ({ _: "updates.channelDifference", final: true, pts: S, new_messages: [], other_updates: [], chats: [], users: [] });
  await w.receive(short({ _: "updateDeleteChannelMessages", channel_id: 5n, messages: [1], pts: p, pts_count: n }));
  if (!known) {
    G.assert(w.delivered.length === 1 && w.calls.length === 0 && w.store.pts.get("5") === p, "the first update of a channel is delivered");
  } else if (p === P + n) {
    G.assert(w.delivered.length === 1 && w.calls.length === 0, "the next update is delivered once");
    G.assert(w.store.pts.get("5") === p, "the channel's state moves on to it");
  } else if (p <= P) {
    G.assert(w.delivered.length === 0 && w.calls.length === 0, "an update already applied is not delivered again");
    G.assert(w.store.pts.get("5") === P, "an old update leaves the channel's state alone");
  } else {
    G.assert(w.calls.length === 1 && w.calls[0]._ === "updates.getChannelDifference", "the channel's missing updates are fetched");
    G.assert(G.pure(() => w.calls[0].pts === P && w.calls[0].channel.channel_id === 5n), "they are fetched from the channel's state");
    G.assert(w.delivered.length === 0, "what the difference covers is not delivered from the live update");
    G.assert(w.store.pts.get("5") === S, "the channel's state is the server's");
  }
  G.assert(w.store.pts.get("6") === 77 && w.store.persisted.pts === 7, "other counters are left alone");
}
export async function channel_history() {
  const w = new World(G.bool());
  const P = G.int(1, MAX);
  const ns = [G.int(1, 1000), G.int(1, 1000)];
  const us: any[] = [];
  let at = P;
  for (let i = 0; i < 2; i++) {
    at += ns[i];
    us.push({ _: "updateDeleteChannelMessages", channel_id: 5n, messages: [i], pts: at, pts_count: ns[i] });
  }
  w.store.persisted = state(7, 3, 4);
  w.store.pts.set("5", P);
  let known = 0;
  const onePerAnswer = G.bool();
  w.answer = (f: any) => {
    const rest: any[] = [];
    for (let i = 0; i < known; i++) if (us[i].pts > f.pts) rest.push(us[i]);
    if (!rest.length) return { _: "updates.channelDifferenceEmpty", final: true, pts: f.pts };
    const some = onePerAnswer ? [rest[0]] : rest;
    return { _: "updates.channelDifference", final: some.length === rest.length, pts: some[some.length - 1].pts, new_messages: [], other_updates: some, chats: [], users: [] };
  };
  for (let i = 0; i < 3; i++) {
    const k = G.choose(3);
    if (k === 2) continue;
    if (k + 1 > known) known = k + 1;
    await w.receive(short(us[k]));
    for (let j = 0; j < 2; j++) G.assert(times(w, j) === (us[j].pts <= w.store.pts.get("5")! ? 1 : 0), "exactly the updates the state covers were delivered, once each");
  }
  known = 2;
  await w.receive({ _: "updateChannelTooLong", channel_id: 5n });
  G.assert(w.delivered.length === 2, "every update is delivered exactly once");
  for (let j = 0; j < 2; j++) G.assert(w.delivered[j].messages[0] === j, "updates are delivered in order");
  G.assert(w.store.pts.get("5") === at && w.store.stored.length === 0, "the channel's state is that of the last update");
}
// with delivery guaranteed, a stop between any two writes loses nothing
export async function no_loss_on_a_crash() {
  const w = new World(true);
  const P = G.int(1, MAX), n = G.int(1, 1000), m = G.int(1, 1000);
  w.store.persisted = state(P, 3, 4);
  w.answer = () => G.fail("nothing is missing");
  await w.receive({ _: "updates", updates: [del(P + n, n, 0), del(P + n + m, m, 1)], users: [], chats: [], date: 9, seq: 0 });
  G.assert(w.delivered.length === 2 && w.delivered[0].messages[0] === 0, "both updates are delivered, in order");
  let pts = P;
  const kept = [false, false], handled = [false, false];
  for (const e of w.log) {
    if (e.k === "state") pts = e.pts;
    else if (e.k === "stored") kept[e.update.messages[0]] = true;
    else if (e.k === "handled") handled[e.update.messages[0]] = true;
    else if (e.k === "removed") kept[e.update.messages[0]] = false;
    for (let i = 0; i < 2; i++) {
      const covered = i === 0 ? pts >= P + n : pts >= P + n + m;
      if (covered) G.assert(kept[i] || handled[i], "an update the saved state covers is handled or kept");
      if (!kept[i] && !handled[i]) G.assert(!covered, "an update that is neither kept nor handled will be fetched again");
    }
  }
  G.assert(!kept[0] && !kept[1], "handled updates are not kept");
}
// a handler that fails leaves the update for another time; the next start delivers what was left, in order
export async function replay_after_a_restart() {
  const w = new World(true);
  const left = G.choose(3);
  w.store.persisted = state(10, 3, 4);
  for (let i = 0; i < left; i++) w.store.setUpdate(0n, del(5 + i, 1, i));
  w.store.setUpdate(5n, { _: "updateDeleteChannelMessages", channel_id: 5n, messages: [9], pts: 3, pts_count: 1 });
  await w.um.replayStoredUpdates();
  await G.settle();
  G.assert(w.delivered.length === left + 1, "every stored update is delivered once");
  for (let i = 0; i < left; i++) G.assert(w.delivered[i].messages[0] === i, "stored updates are delivered in order");
  G.assert(w.store.stored.length === 0, "delivered updates are removed");
}
// everything a difference brings is delivered once, and what it covers is not delivered again from live updates
export async function difference_contents() {
  const w = new World(G.bool());
  const P = G.int(1, MAX), n = G.int(1, 1000), m = G.int(1, 1000), Q = G.int(1, MAX);
  w.store.persisted = state(P, Q, 4);
  const msg = (id: number) => ({ _: "message", id, peer_id: { _: "peerUser", user_id: 7n }, message: "", date: 1 });
  const other = del(P + n + m, m, 2);
  const server = state(P + n + m, Q + 1, 6);
  w.answer = (f: any) => {
    G.assert(f._ === "updates.getDifference" && f.pts === P && f.qts === Q, "the difference is asked for from the client's state");
    return { _: "updates.difference", new_messages: [msg(1)], new_encrypted_messages: [{ _: "encryptedMessageService", random_id: 1n, chat_id: 1, date: 1, bytes: new Uint8Array(0) }], other_updates: [other, { _: "updateUserTyping", user_id: 1n, action: { _: "sendMessageTypingAction" } }], chats: [], users: [], state: server };
  };
  await w.receive({ _: "updatesTooLong" });
  G.assert(w.delivered.length === 4, "every part of a difference is delivered once");
  const kinds = w.delivered.map((u) => u._);
  for (const k of ["updateNewMessage", "updateNewEncryptedMessage", "updateDeleteMessages", "updateUserTyping"]) G.assert(kinds.filter((x: string) => x === k).length === 1, "each kind of update in a difference is delivered");
  G.assert(kinds.indexOf("updateNewMessage") < kinds.indexOf("updateDeleteMessages"), "new messages come before the updates about them");
  G.assert(w.store.persisted.pts === P + n + m && w.store.persisted.qts === Q + 1 && w.store.persisted.seq === 6, "the client's state becomes the server's");
  await w.receive(short({ _: "updateNewMessage", message: msg(1), pts: P + n, pts_count: n }));
  await w.receive(short({ _: "updateNewEncryptedMessage", qts: Q + 1, message: { _: "encryptedMessageService", random_id: 1n, chat_id: 1, date: 1, bytes: new Uint8Array(0) } }));
  await w.receive(short(other));
  await w.receive({ _: "updates", updates: [{ _: "updateUserTyping", user_id: 1n, action: { _: "sendMessageTypingAction" } }], users: [], chats: [], date: 9, seq: 6 });
  G.assert(w.delivered.length === 4 && w.calls.length === 1, "what the difference covered is not delivered again");
}
// an update about a chat the client has never seen is fetched with the chat, and delivered once
export async function unknown_chat() {
  const w = new World(false);
  const P = G.int(1, MAX);
  w.store.persisted = state(P, 3, 4);
  const message = { _: "message", id: 8, peer_id: { _: "peerUser", user_id: 7n }, message: "", date: 1 };
  const seen = G.bool();
  w.peersKnown = seen;
  w.answer = (f: any) => {
    G.assert(f.pts === P, "the difference is asked for from the client's state");
    return { _: "updates.difference", new_messages: [message], new_encrypted_messages: [], other_updates: [], chats: [], users: [], state: state(P + 1, 3, 4) };
  };
  await w.receive(G.bool() ? short({ _: "updateNewMessage", message, pts: P + 1, pts_count: 1 }) : { _: "updateShortMessage", id: 8, user_id: 7n, message: "", pts: P + 1, pts_count: 1, date: 1 });
  G.assert(w.calls.length === (seen ? 0 : 1), "a difference is fetched when a chat is unknown");
  G.assert(w.delivered.length === 1 && w.delivered[0].message.id === 8, "the message is delivered once");
  G.assert(w.store.persisted.pts === P + 1, "the state covers it");
}
// a handler that keeps failing does not lose the update
export async function failing_handler() {
  const w = new World(true);
  const P = G.int(1, MAX), failures = G.choose(4);
  w.store.persisted = state(P, 3, 4);
  let left = failures === 3 ? 1000000 : failures, done = 0;
  const failing: any = (update: any) =>
    Promise.resolve(() => {
      if (left > 0) {
        left--;
        return Promise.reject(new Error("handler"));
      }
      done++;
      return Promise.resolve();
    });
  w.um.setUpdateHandler(failing);
  await w.receive(short(del(P + 1, 1)));
  G.assert(done <= 1 && done + w.store.stored.length === 1, "an update is handled or kept");
  left = 0;
  await w.um.replayStoredUpdates();
  await G.settle();
  G.assert(done === 1 && w.store.stored.length === 0, "a kept update is delivered once when the handler works again");
}
