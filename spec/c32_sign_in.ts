// C32: who signs in is signed in as that account, in its data center, in this program and the next and wherever the auth string is taken; who signs out leaves nothing behind.
import * as G from "./ghost.ts";
import { Disk, telegramError, World } from "./world.ts";
import { be, P, power } from "./authserver.ts";
import { StorageOperations } from "file:///repo/client/0_storage_operations.ts";
import { InputError } from "file:///repo/0_errors.ts";

type Account = { id: number; phone: string; dc: string; exists: boolean; password: string | null; names: string };
const CODE = "12345";
// Telegram as far as signing in goes: accounts in their data centers
class Telegram extends World {
  accounts: Account[] = [];
  codes = new Map<number, string>(); // sent to whom, by key
  pending = new Map<number, Account>(); // waits for a password or a name, by key
  badPhone = 0;
  given: string[] = []; // passwords the user gave
  logOutFails = false;
  constructor() {
    super();
    G.override("client/0_password.ts#checkPassword", async (password: string, ap: any) => ({ _: "inputCheckPasswordSRP", srp_id: ap.srp_id, A: new Uint8Array(256), M1: new TextEncoder().encode(password) }));
    // contract of base64: decoding undoes encoding
    const sent: Uint8Array[] = [];
    G.override("utilities/1_base64.ts#base64EncodeUrlSafe", (d: Uint8Array) => "text" + sent.push(G.snap(d)));
    G.override("utilities/1_base64.ts#base64DecodeUrlSafe", (t: string) => G.snap(sent.find((_, i) => t === "text" + (i + 1))!));
    this.answer = (link, f) => this.auth(link, link.client.authKey[0], f);
  }
  as(key: number, a: Account) {
    this.authorized.add(key);
    this.owner.set(key, a.id);
    return { _: "auth.authorization", user: this.user(a.id) };
  }
  user(id: number) {
    return { _: "user", id: BigInt(id), access_hash: 5n, first_name: "Me", self: true, bot: id > 900 };
  }
  auth(link: any, key: number, f: any): any {
    switch (f._) {
      case "auth.sendCode": {
        const a = this.accounts.find((x) => x.phone === f.phone_number);
        if (!a || f.api_id !== 1 || f.api_hash !== "hash") throw telegramError("PHONE_NUMBER_INVALID");
        if (a.dc !== link.client.dc) throw telegramError("PHONE_MIGRATE_" + a.dc, 303);
        this.codes.set(key, a.phone);
        return { _: "auth.sentCode", type: { _: "auth.sentCodeTypeApp", length: 5 }, phone_code_hash: "hash of " + a.phone };
      }
      case "auth.signIn": {
        const a = this.accounts.find((x) => x.phone === this.codes.get(key))!;
        if (!a || f.phone_number !== a.phone || f.phone_code_hash !== "hash of " + a.phone) throw telegramError("PHONE_CODE_EXPIRED");
        if (f.phone_code !== CODE) throw telegramError("PHONE_CODE_INVALID");
        this.pending.set(key, a);
        if (!a.exists) return { _: "auth.authorizationSignUpRequired" };
        if (a.password !== null) throw telegramError("SESSION_PASSWORD_NEEDED", 401);
        return this.as(key, a);
      }
      case "auth.signUp": {
        const a = this.pending.get(key);
        if (!a || a.exists || f.phone_number !== a.phone || f.phone_code_hash !== "hash of " + a.phone) throw telegramError("PHONE_CODE_EXPIRED");
        a.exists = true;
        a.names = f.first_name + "|" + f.last_name;
        return this.as(key, a);
      }
      case "account.getPassword":
        if (!this.pending.get(key)) return undefined;
        return { _: "account.password", current_algo: { _: "passwordKdfAlgoSHA256SHA256PBKDF2HMACSHA512iter100000SHA256ModPow", salt1: new Uint8Array(9), salt2: new Uint8Array(9), g: 3, p: be(P, 256) }, srp_B: be(power(3n, 3001n, P), 256), srp_id: 123456789012345n, hint: "a hint" };
      case "auth.checkPassword": {
        const a = this.pending.get(key);
        const p = f.password;
        const right = G.symbolic ? new TextDecoder().decode(p.M1) === a?.password : this.given[this.given.length - 1] === a?.password;
        if (!a?.exists || p.srp_id !== 123456789012345n || !right) throw telegramError("PASSWORD_HASH_INVALID");
        return this.as(key, a);
      }
      case "auth.importBotAuthorization": {
        const a = this.accounts.find((x) => x.phone === f.bot_auth_token);
        if (!a || f.api_id !== 1 || f.api_hash !== "hash") throw telegramError("ACCESS_TOKEN_INVALID");
        if (a.dc !== link.client.dc) throw telegramError("USER_MIGRATE_" + a.dc, 303);
        return this.as(key, a);
      }
      case "auth.logOut":
        if (this.logOutFails) throw telegramError("INTERNAL", 500);
        if (!this.authorized.has(key)) return undefined;
        this.authorized.delete(key);
        this.owner.delete(key);
        return { _: "auth.loggedOut" };
      case "users.getUsers":
        if (!this.authorized.has(key)) return undefined;
        return [this.user(this.owner.get(key)!)];
    }
  }
  account(more: any = {}): Account {
    const a = { id: 501, phone: "+1", dc: "2", exists: true, password: null, names: "", ...more };
    this.accounts.push(a);
    return a;
  }
}
const failure = async (p: Promise<any>) => {
  try {
    await p;
    return null;
  } catch (err) {
    return err as any;
  }
};
// a client that is signed in to the account
async function isSignedIn(w: Telegram, c: any, a: Account, bot = false) {
  const auth = c.storage.auth.mustGet();
  G.assert(w.owner.get(auth.authKey[0]) === a.id && auth.dc === a.dc && auth.userId === a.id && auth.isBot === bot, "the account's key and data center are kept");
  G.assert((await c.getMe()).id === a.id && (await c.getInputPeer(a.id))._ === "inputPeerSelf", "and the client acts as the account");
  const n = w.calls.length;
  await c.invoke({ _: "help.getNearestDc" });
  const call = w.calls.slice(n).find((x) => x.f._ === "help.getNearestDc")!;
  G.assert(call.dc === a.dc && w.owner.get(call.key) === a.id, "over its key");
}
async function later(w: Telegram, a: Account, bot = false) {
  const next = w.client();
  await next.connect();
  const n = w.calls.length;
  G.assert((await failure(next.signIn({ phone: "+0", code: "", password: "" }))) === null && !w.calls.slice(n).some((x) => x.f._ === "auth.sendCode"), "the next program is signed in already");
  await isSignedIn(w, next, a, bot);
  const s = await next.exportAuthString();
  await next.disconnect();
  w.storage = new Disk();
  const other = w.client({ authString: s });
  await other.connect();
  await isSignedIn(w, other, a, bot);
  await other.disconnect();
}
// A person: types something wrong now and then.
export async function users() {
  const w = new Telegram();
  const a = w.account({ dc: ["2", "4"][G.choose(2)], exists: true });
  const kind = G.choose(3);
  if (kind === 1) a.password = "right password";
  if (kind === 2) a.exists = false;
  const wrong = [G.choose(2), G.choose(2), kind === 1 ? G.choose(2) : 0];
  const asked = [0, 0, 0];
  const c = w.client();
  await c.connect();
  if (G.choose(2) === 1) {
    // something was tried before
    await failure(c.getInputPeer(a.id));
  }
  const hints: any[] = [];
  await c.signIn({
    phone: () => asked[0]++ < wrong[0] ? "+7" : "+1",
    code: () => Promise.resolve(asked[1]++ < wrong[1] ? "11111" : CODE),
    password: (hint: any) => {
      hints.push(hint);
      const p = asked[2]++ < wrong[2] ? "Right password" : "right password";
      w.given.push(p);
      return p;
    },
    firstName: "  Ann ",
    lastName: () => " Lee",
  });
  G.assert(asked[0] === wrong[0] + 1 && asked[1] === wrong[1] + 1 && asked[2] === (kind === 1 ? wrong[2] + 1 : 0) && hints.every((h) => h === "a hint"), "everything is asked until it is right");
  G.assert(kind !== 2 || a.names === "Ann|Lee", "a new account gets its name");
  await isSignedIn(w, c, a);
  await c.disconnect();
  await later(w, a);
}
// Answers that do not change.
export async function fixed_answers() {
  const w = new Telegram();
  const a = w.account({ dc: ["2", "4"][G.choose(2)], password: G.choose(2) === 1 ? "p" : null });
  const wrong = G.choose(4); // 3: none
  const c = w.client();
  await c.connect();
  w.given.push(wrong === 2 ? "q" : "p");
  const err = await failure(c.signIn({ phone: wrong === 0 ? "+7" : "+1", code: wrong === 1 ? "1" : CODE, password: w.given[0] }));
  if (wrong === 3 || wrong === 2 && a.password === null) {
    G.assert(err === null, "right ones are enough");
    await isSignedIn(w, c, a);
  } else {
    G.assert(err !== null && w.authorized.size === 0 && c.storage.auth.mustGet().userId === 0 && (await failure(c.getMe())) instanceof InputError && (await failure(c.exportAuthString())) instanceof InputError, "with a wrong one nobody is signed in");
  }
}
export async function bots() {
  const w = new Telegram();
  const a = w.account({ id: 901, phone: "901:token", dc: ["2", "4", "5"][G.choose(3)] });
  const c = w.client();
  await c.connect();
  G.assert((await failure(c.signIn({ botToken: "901:other" }))) !== null && w.authorized.size === 0 && (await failure(c.getMe())) instanceof InputError, "a wrong token is refused");
  await c.signIn({ botToken: "901:token" });
  await isSignedIn(w, c, a, true);
  await c.disconnect();
  await later(w, a, true);
}
// Signing out, and in as somebody else.
export async function sign_out() {
  const w = new Telegram();
  const a = w.account({ dc: ["2", "4"][G.choose(2)] }), b = w.account({ id: 502, phone: "+2", dc: ["2", "4"][G.choose(2)] });
  let c = w.client();
  await c.connect();
  await c.signIn({ phone: "+1", code: CODE, password: "" });
  await isSignedIn(w, c, a);
  const elsewhere = [undefined, { dc: "5" }, { dc: "1", type: "download" }, { type: "upload" }][G.choose(4)];
  await c.invoke({ _: "help.getNearestDc" }, elsewhere);
  // by this program, the next, or one that has the auth string
  const by = G.choose(3);
  if (by > 0) {
    const s = by === 2 ? await c.exportAuthString() : undefined;
    await c.disconnect();
    if (by === 2) w.storage = new Disk();
    c = w.client({ authString: s });
    await c.connect();
    await isSignedIn(w, c, a);
  }
  w.logOutFails = G.choose(2) === 1;
  const err = await failure(c.signOut());
  G.assert((err === null) === !w.logOutFails && w.of("auth.logOut").length === 1, "the server is told");
  for (const [at, [, v]] of w.storage.map) G.assert(!at.includes("peers") && (!v?.authKey || !w.owner.has(v.authKey[0])), "nothing of the account is kept");
  G.assert((await failure(c.getMe())) instanceof InputError && (await failure(c.exportAuthString())) instanceof InputError, "and the client is nobody's");
  await c.signIn({ phone: "+2", code: CODE, password: "" });
  await isSignedIn(w, c, b);
  for (const params of [elsewhere, { dc: "5" }]) {
    const n = w.calls.length;
    await c.invoke({ _: "help.getNearestDc" }, params);
    const last = w.calls.slice(n).filter((x) => x.f._ === "help.getNearestDc").pop()!;
    G.assert(last.dc === ((params as any)?.dc ?? b.dc) && w.owner.get(last.key) === b.id, "somebody else can sign in");
  }
  await c.disconnect();
  await later(w, b);
}
// Something else goes wrong.
export async function other_errors() {
  const w = new Telegram();
  const a = w.account({ password: "p" });
  const c = w.client();
  await c.connect();
  const at = G.choose(3), error = telegramError(["PHONE_NUMBER_BANNED", "PHONE_CODE_EXPIRED", "SRP_ID_INVALID"][at]);
  const step = ["auth.sendCode", "auth.signIn", "auth.checkPassword"][at];
  w.hook = (_link, f) => f._ === step ? error : undefined;
  const asked: string[] = [];
  const err = await failure(c.signIn({
    phone: () => (asked.push("phone"), "+1"),
    code: () => (asked.push("code"), CODE),
    password: () => (asked.push("password"), "p"),
  }));
  G.assert(err === error && asked.join() === ["phone", "code", "password"].slice(0, at + 1).join() && w.of(step).length === 1, "it is reported and nothing is asked again");
  G.assert(w.authorized.size === 0 && c.storage.auth.mustGet().userId === 0 && (await failure(c.getMe())) instanceof InputError, "and nobody is signed in");
}
// A client takes the auth string of another account.
export async function other_account() {
  const w = new Telegram();
  const a = w.account({ dc: ["2", "4"][G.choose(2)] }), b = w.account({ id: 902, phone: "902:token", dc: ["2", "4"][G.choose(2)] });
  const d = w.client();
  await d.connect();
  await d.signIn({ botToken: "902:token" });
  const s = await d.exportAuthString();
  await d.disconnect();
  w.storage = new Disk();
  const c = w.client();
  await c.connect();
  await c.signIn({ phone: "+1", code: CODE, password: "" });
  await isSignedIn(w, c, a);
  G.assert((await failure(c.importAuthString(s))) instanceof InputError, "not while it is connected");
  await isSignedIn(w, c, a);
  await c.disconnect();
  await c.importAuthString(s);
  await c.connect();
  await isSignedIn(w, c, b, true);
  await c.disconnect();
  await later(w, b, true);
}
// An auth string holds what it was made of.
export async function auth_strings() {
  let wire: Uint8Array;
  G.override("utilities/0_rle.ts#rleEncode", (d: Uint8Array) => G.snap(d));
  G.override("utilities/0_rle.ts#rleDecode", (d: Uint8Array) => G.snap(d));
  G.override("utilities/1_base64.ts#base64EncodeUrlSafe", (d: Uint8Array) => (wire = G.snap(d), "text"));
  G.override("utilities/1_base64.ts#base64DecodeUrlSafe", (_: string) => G.snap(wire!));
  const auth: any = { apiId: G.int(1, 2147483647), authKey: G.bytes(256, 256), dc: ["1", "2", "3", "4", "5", "1-test", "2-test", "3-test"][G.choose(8)], isBot: G.choose(2) === 1, userId: G.int(1, 9007199254740991) };
  const s = new StorageOperations(new Disk() as any);
  await s.initialize();
  await s.auth.set({ ...auth });
  const given = [undefined, null, 77][G.choose(3)];
  const text = await s.exportAuthString(given);
  const t = new StorageOperations(new Disk() as any);
  await t.initialize();
  await t.importAuthString(text);
  const r = t.auth.mustGet();
  G.assert(r.apiId === (given ?? auth.apiId) && r.dc === auth.dc && r.isBot === auth.isBot && r.userId === auth.userId && (await t.getAccountId()) === auth.userId, "it is the same account");
  G.assert(r.authKey!.length === 256 && auth.authKey.every((x: number, i: number) => r.authKey![i] === x), "with the same key");
}
