// One side of a secret chat, with everything around the real manager replaced by stand-ins under the contract's control; shared by contract files.
import * as G from "./ghost.ts";
import { SecretChatManager } from "file:///repo/client/3_secret_chat_manager.ts";
import { concat } from "file:///repo/0_deps.ts";
import { SecretChats } from "file:///repo/2_tl.ts";
import { le, open, seal, sha1 } from "./server.ts";

export const CHAT = 77;
export const HASH = 1234n;
export const SELF = 5;
export const OTHER = 6;
// a store that keeps what it is given as it is at that time
export class Store {
  saved = new Map<number, any>();
  writes = 0;
  async set(key: any, value: any) {
    ++this.writes;
    if (value === null) this.saved.delete(key[1]);
    else this.saved.set(key[1], this.copy(value));
  }
  copy(v: any): any {
    if (v instanceof Uint8Array) return v.slice();
    if (Array.isArray(v)) return v.map((x) => this.copy(x));
    if (typeof v === "object" && v !== null) {
      const o: any = {};
      for (const k of Object.keys(v)) o[k] = this.copy(v[k]);
      return o;
    }
    return v;
  }
  async *getMany(_filter: any) {
    for (const [k, v] of this.saved) yield [["secretChats", k], this.copy(v)];
  }
}
export class Side {
  store: Store;
  manager: any;
  self: number;
  received: any[] = [];
  calls: any[] = [];
  sent: any[] = [];
  discarded = 0;
  held: any[] = [];
  hold = false;
  failNext = 0;
  constructor(self: number, store = new Store(), upload: any = () => Promise.reject(new Error("no files"))) {
    this.self = self;
    this.store = store;
    const side = this;
    this.manager = new SecretChatManager({
      storage: { assertUser() {} },
      messageStorage: { storage: store },
      parseMode: null,
      getSelfId: () => Promise.resolve(side.self),
      getInputUser: () => Promise.resolve({ _: "inputUser", user_id: BigInt(OTHER), access_hash: 9n }),
      handleUpdate: (u: any) => {
        side.received.push(u);
      },
      fileManager: { upload },
      invoke: (f: any) => side.invoke(f),
    } as any);
  }
  answer: any = () => undefined;
  async invoke(f: any): Promise<any> {
    this.calls.push(f);
    if (this.hold && f.data !== undefined) await new Promise((r) => this.held.push(r));
    if (this.failNext > 0 && f.data !== undefined) {
      --this.failNext;
      throw new Error("the connection was lost");
    }
    if (f._ === "messages.discardEncryption") ++this.discarded;
    if (f.data !== undefined) this.sent.push(f);
    if (f._ === "messages.sendEncryptedFile") return { _: "messages.sentEncryptedFile", date: 1, file: { _: "encryptedFile", id: 41n, access_hash: 42n, size: 10n, dc_id: 2, key_fingerprint: 3 } };
    return this.answer(f);
  }
  // start again from what has been stored
  async load() {
    await this.manager.loadSecretChats();
  }
  async restarted(): Promise<Side> {
    const s = new Side(this.self, this.store);
    await s.load();
    return s;
  }
  // the update the server makes of a message
  deliver(data: Uint8Array, more: any = {}) {
    return this.manager.handleUpdate({ _: "updateNewEncryptedMessage", message: { _: "encryptedMessage", random_id: 0n, chat_id: CHAT, date: 1, bytes: data, file: { _: "encryptedFileEmpty" }, ...more }, qts: 1 });
  }
  get state() {
    return this.store.saved.get(CHAT);
  }
}
// what is stored for an established chat
export async function established(authKey: Uint8Array, isCreator: boolean, more: any = {}) {
  const id = (await sha1(authKey)).subarray(12, 20);
  return {
    encryptedChat: { _: "encryptedChat", id: CHAT, access_hash: HASH, date: 1, admin_id: BigInt(isCreator ? SELF : OTHER), participant_id: BigInt(isCreator ? OTHER : SELF), g_a_or_b: new Uint8Array(), key_fingerprint: 0n },
    authKey,
    authKeyId: 0n,
    authKeyId_: id,
    authKeyUseCount: 0,
    isAuthKeyUsed: false,
    authKeyCreatedAt: Date.now(),
    previousAuthKey: new Uint8Array(),
    previousAuthKeyId_: new Uint8Array(),
    previousAuthKeyDiscardAfterSeqNo: -1,
    isAwaitingNewAuthKeyConfirmation: false,
    a: 0n,
    g: 3,
    prime: 0n,
    pendingExponent: 0n,
    rekeyId: 0n,
    rekeyA: 0n,
    toCommitId: 0n,
    toCommitAuthKey: new Uint8Array(),
    toCommitAuthKeyId: 0n,
    toCommitAuthKeyId_: new Uint8Array(),
    inSeqNo: 0,
    outSeqNo: 0,
    remoteInSeqNo: 0,
    isGapRequested: false,
    gapEndSeqNo: -1,
    pendingMessages: [],
    outgoingMessages: [],
    ...more,
  };
}
export async function side(isCreator: boolean, authKey: Uint8Array, more: any = {}) {
  const s = new Side(SELF);
  s.store.saved.set(CHAT, await established(authKey, isCreator, more));
  await s.load();
  return s;
}
// ---- the other end, from the protocol description (secret chats, MTProto 2.0: x is 0 for what the creator sends and 8 for what the other sends) ----
export function plaintext(layer: any, extra = 0) {
  const body = SecretChats.serializeObject(layer);
  const padding = (16 - (4 + body.length + 12) % 16) % 16 + 12 + 16 * extra;
  return concat([le(BigInt(body.length), 4), body, new Uint8Array(padding)]);
}
export const encrypted = (authKey: Uint8Array, layer: any, fromCreator: boolean, extra = 0) => seal(authKey, plaintext(layer, extra), fromCreator ? 0 : 8);
export const opened = (authKey: Uint8Array, data: Uint8Array, fromCreator: boolean) => open(authKey, data, fromCreator ? 0 : 8);
export function textLayer(text: string, out: number, inn: number, more: any = {}) {
  return { _: "decryptedMessageLayer", random_bytes: new Uint8Array(15), layer: 144, in_seq_no: inn, out_seq_no: out, message: { _: "decryptedMessage", random_id: 1n, ttl: 0, message: text, ...more } };
}
export function serviceLayer(action: any, out: number, inn: number) {
  return { _: "decryptedMessageLayer", random_bytes: new Uint8Array(15), layer: 144, in_seq_no: inn, out_seq_no: out, message: { _: "decryptedMessageService", random_id: 1n, action } };
}
