// A whole client over stand-ins for its connections (their contracts are C15, C20 and C29), and Telegram's data centers as far as authorization goes; shared by contract files.
import * as G from "./ghost.ts";
import { Client } from "file:///repo/client/6_client.ts";
import { ClientEncrypted } from "file:///repo/client/2_client_encrypted.ts";
import { StorageOperations } from "file:///repo/client/0_storage_operations.ts";
import { AuthKeyUnregistered } from "file:///repo/3_errors.ts";
import { ConnectionError } from "file:///repo/0_errors.ts";
import { constructTelegramError } from "file:///repo/4_errors.ts";

export const NOW = 1700000000000;
export const ME = 777;
export const key = (n: number) => new Uint8Array(256).fill(n);
export const telegramError = (error_message: string, error_code = 400) => constructTelegramError({ _: "rpc_error", error_code, error_message } as any, {} as any);

// a storage that outlives the program
export class Disk {
  map = new Map<string, [any[], any]>();
  id = "";
  get mustSerialize() {
    return false;
  }
  get isMemory() {
    return false;
  }
  get supportsFiles() {
    return false;
  }
  initialize() {}
  close() {}
  branch(id: string): any {
    const d = new Disk();
    d.map = this.map;
    d.id = this.id + "/" + id;
    return d;
  }
  at(k: any) {
    return this.id + "|" + k.map((x: any) => typeof x + ":" + String(x)).join("|");
  }
  get(k: any): any {
    return this.map.get(this.at(k))?.[1] ?? null;
  }
  set(k: any, v: any) {
    if (v === null) this.map.delete(this.at(k));
    else this.map.set(this.at(k), [k, copy(v)]);
  }
  incr(k: any, by: any) {
    this.set(k, (this.get(k) ?? 0) + by);
  }
  *getMany(filter: any): any {
    if (!("prefix" in filter)) throw new Error("range");
    for (const [at, [k, v]] of [...this.map]) if (at.startsWith(this.id + "|") && filter.prefix.every((x: any, i: number) => k[i] === x)) yield [k, v];
  }
}
const copy = (v: any): any => v !== null && typeof v === "object" && !Array.isArray(v) && !(v instanceof Uint8Array) && !(v instanceof Date) ? { ...v } : v;

type Call = { dc: string; media: boolean; key: number; f: any; at: number };
export class World {
  storage = new Disk();
  links: any[] = [];
  calls: Call[] = [];
  problems: string[] = [];
  authorized = new Set<number>(); // the keys that belong to an account
  owner = new Map<number, number>(); // and to which
  dcs = new Map<number, string>(); // the data center that knows a key
  nextKey = 10;
  exported: any[] = [];
  // what the contract lets happen to a request instead of the answer; undefined to let it through
  hook: (link: any, f: any) => any = () => undefined;
  answer: (link: any, f: any) => any = () => undefined;
  connects = 0;
  failConnect: (link: any) => any = () => undefined;

  constructor() {
    const w = this;
    G.setNow(NOW);
    G.method(ClientEncrypted, "connect", async function (this: any) {
      const link = w.link(this);
      ++w.connects;
      const err = w.failConnect(link);
      if (err) throw err;
      if (!this.authKey.byteLength) await this.setAuthKey(key(w.nextKey++) as any);
      if ((w.dcs.get(this.authKey[0]) ?? this.dc) !== this.dc) throw new ConnectionError("The data center does not know the key.");
      w.dcs.set(this.authKey[0], this.dc);
      link.open = true;
      link.disconnected = false;
    });
    G.method(ClientEncrypted, "disconnect", function (this: any) {
      const link = w.link(this);
      link.open = false;
      link.disconnected = true;
    });
    G.getter(ClientEncrypted, "isConnected", function (this: any) {
      return w.link(this).open;
    });
    G.getter(ClientEncrypted, "isDisconnected", function (this: any) {
      return w.link(this).disconnected;
    });
    G.method(ClientEncrypted, "invoke", async function (this: any, f: any) {
      const link = w.link(this);
      this.lastRequest = new Date();
      await Promise.resolve();
      if (!link.open) throw new ConnectionError("The connection is not open.");
      const key = this.authKey.byteLength ? this.authKey[0] : 0;
      w.calls.push({ dc: this.dc, media: this.isMedia, key, f, at: Date.now() });
      const err = await w.hook(link, f);
      if (err) throw err;
      return w.serve(link, key, f);
    });
  }
  link(client: any) {
    let l = this.links.find((x) => x.client === client);
    if (!l) this.links.push(l = { client, open: false, disconnected: true });
    return l;
  }
  serve(link: any, key: number, f: any) {
    const dc = parseInt(link.client.dc);
    if (f._ === "auth.importAuthorization") {
      const e = this.exported.find((x) => x.id === f.id && !x.used && x.dc === dc && f.bytes?.[0] === x.bytes[0]);
      if (!e) throw telegramError("AUTH_BYTES_INVALID");
      e.used = true;
      this.authorized.add(key);
      if (e.owner !== undefined) this.owner.set(key, e.owner);
      return { _: "auth.authorization", user: { _: "userEmpty", id: BigInt(ME) } };
    }
    const own = this.answer(link, f);
    if (own !== undefined) return own;
    if (!this.authorized.has(key)) throw new AuthKeyUnregistered({ error_code: 401, error_message: "AUTH_KEY_UNREGISTERED", call: f } as any);
    switch (f._) {
      case "auth.exportAuthorization": {
        const e = { id: BigInt(this.exported.length + 1), bytes: new Uint8Array([this.exported.length + 50]), dc: f.dc_id, used: false, owner: this.owner.get(key) };
        this.exported.push(e);
        return { _: "auth.exportedAuthorization", id: e.id, bytes: e.bytes };
      }
      case "updates.getState":
        return { _: "updates.state", pts: 1, qts: 1, date: 1700000000, seq: 1, unread_count: 0 };
      case "updates.getDifference":
        return { _: "updates.differenceEmpty", date: 1700000000, seq: 1 };
      case "users.getUsers":
        return [{ _: "user", id: BigInt(ME), access_hash: 5n, first_name: "Me", self: true }];
      case "help.getNearestDc":
        return { _: "nearestDc", country: "x", this_dc: dc, nearest_dc: dc };
    }
    return true;
  }
  // storage of somebody who is signed in in the data center 2 with the key 1
  async signedIn(dc = "2") {
    const s = new StorageOperations(this.storage);
    await s.initialize();
    await s.auth.update((v: any) => {
      v.apiId = 1;
      v.authKey = key(1);
      v.dc = dc;
      v.userId = ME;
      v.isBot = false;
    });
    await s.commit(true);
    this.authorized.add(1);
    this.dcs.set(1, dc);
  }
  client(more: any = {}): any {
    return new Client({ storage: this.storage, apiId: 1, apiHash: "hash", appVersion: "a", deviceModel: "d", language: "en", platform: "", systemLangCode: "en", systemVersion: "1", disableUpdates: false, ...more } as any);
  }
  of(name: string) {
    return this.calls.filter((c) => c.f._ === name);
  }
}
