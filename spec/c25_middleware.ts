// C25: updates pass through the middleware in order, as far as next is called.
import * as G from "./ghost.ts";
import { Composer } from "file:///repo/client/5_composer.ts";
import { Context } from "file:///repo/client/4_context.ts";

// What a middleware does: 0 pass on; 1 stop; 2 pass on twice, one after the other; 3 pass on and not wait; 4 fail; 5 fail after passing on;
// 6 catch what fails behind it; 7 wait, then pass on; 8 pass on twice at once.
const KINDS = 9;
class Trace {
  log: string[] = [];
  contexts: any[] = [];
  held: any[] = [];
  expected: string[] = [];
  mw(name: string, kind: number) {
    return async (ctx: any, next: any) => {
      this.log.push("+" + name);
      this.contexts.push(ctx);
      if (kind === 4) throw new Error(name);
      if (kind === 7) await new Promise((r) => this.held.push(r));
      if (kind === 0 || kind === 7) await next();
      if (kind === 2) {
        await next();
        await next();
      }
      if (kind === 8) await Promise.all([next(), next()]);
      if (kind === 3) next();
      if (kind === 5) {
        await next();
        throw new Error(name);
      }
      if (kind === 6) {
        try {
          await next();
        } catch (err) {
          this.log.push("!" + (err as Error).message);
        }
      }
      this.log.push("-" + name);
    };
  }
  // what is expected of a chain: the names of its middleware, and their kinds. The result is the error that comes out of it, if any.
  run(names: string[], kinds: number[], after: () => string | null = () => null): string | null {
    if (names.length === 0) return after();
    const kind = kinds[0];
    this.expected.push("+" + names[0]);
    if (kind === 4) return names[0];
    if (kind !== 1) {
      const err = this.run(names.slice(1), kinds.slice(1), after);
      if (kind === 5 && err === null) return names[0];
      if (err !== null && kind !== 6) return err;
      if (err !== null) this.expected.push("!" + err);
    }
    this.expected.push("-" + names[0]);
    return null;
  }
}
const me = { id: 5, isBot: true, username: "Robot" };
const account = () => ({ asked: 0, getMe() { ++this.asked; return Promise.resolve(me); } });
async function handle(c: any, client: any, update: any, held: any[]): Promise<string | null> {
  let out: string | null = null;
  let over = false;
  c.handleUpdate(client, update).then(() => { over = true; }, (err: any) => { over = true; out = err.message; });
  await G.settle();
  while (held.length) {
    G.assert(!over, "a middleware that awaits next waits for all that follow");
    held.shift()();
    await G.settle();
  }
  G.assert(over, "the handling is over when the middleware is");
  return out;
}
const same = (a: string[], b: string[]) => a.length === b.length && a.every((x, i) => x === b[i]);
const NAMES = ["a", "b", "c"];

// middleware registered one by one, together, as objects, or by composers within composers
function build(shape: number, m: any[]): any {
  const root: any = new Composer<any>();
  if (shape === 0) for (const x of m) root.use(x);
  if (shape === 1) root.use(...m);
  if (shape === 2) {
    root.use(m[0]);
    const inner: any = new Composer<any>();
    root.use(inner);
    inner.use(m[1]);
    root.use(m[2]);
  }
  if (shape === 3) {
    const inner = root.use(m[0]);
    root.use(m[2]);
    inner.use(m[1]);
  }
  if (shape === 4) return new Composer<any>(...m);
  if (shape === 5) {
    root.use({ middleware: () => m[0] });
    root.filter(() => Promise.resolve(true), m[1]).use(m[2]);
  }
  return root;
}
const SHAPES = 6;

export async function chains() {
  const t = new Trace();
  const shape = G.choose(SHAPES);
  // the kinds that start the rest without waiting are in a lemma of their own
  const KIND = [0, 1, 2, 4, 5, 6, 7, 8];
  const kinds = [KIND[G.choose(8)], KIND[G.choose(8)], KIND[G.choose(shape < 2 ? 8 : 3)]];
  const c = build(shape, NAMES.map((n, i) => t.mw(n, kinds[i])));
  const client: any = account();
  const update: any = { type: "deletedMessages", deletedMessages: [] };
  const want = t.run(NAMES, kinds);
  const got = await handle(c, client, update, t.held);
  G.assert(same(t.log, t.expected), "middleware runs in order, once, as far as next is called");
  G.assert(got === want, "an error that nobody caught reaches the caller");
  G.assert(t.contexts.every((x) => x.update === update && x.client === client && x.me === me), "every middleware is given the update, the client and its account");
}

export async function not_awaited() {
  const t = new Trace();
  const first = G.choose(2);
  const kinds = first ? [3, 7, 0] : [0, 3, 7];
  const c = build(G.choose(SHAPES - 1), NAMES.map((n, i) => t.mw(n, kinds[i])));
  let over = false;
  c.handleUpdate(account(), { type: "x" }).then(() => { over = true; });
  await G.settle();
  G.assert(over && same(t.log, first ? ["+a", "+b", "-a"] : ["+a", "+b", "+c", "-b", "-a"]), "what is not awaited is not waited for");
  t.held.shift()();
  await G.settle();
  G.assert(same(t.log, first ? ["+a", "+b", "-a", "+c", "-c", "-b"] : ["+a", "+b", "+c", "-b", "-a", "-c"]), "but still runs");
}

export async function two_updates() {
  const t = new Trace();
  const kinds = [[0, 2, 6, 8][G.choose(4)], [0, 2, 1, 8][G.choose(4)], 0];
  const c = build(G.choose(SHAPES), NAMES.map((n, i) => t.mw(n, kinds[i])));
  const client: any = account();
  const one: any = { type: "x" }, two: any = { type: "y" };
  t.run(NAMES, kinds);
  await handle(c, client, one, t.held);
  t.run(NAMES, kinds);
  await handle(c, client, two, t.held);
  G.assert(same(t.log, t.expected), "every update passes through all of the middleware");
  const half = t.contexts.length / 2;
  G.assert(t.contexts.every((x, i) => x.update === (i < half ? one : two)), "each sees its own update");
  G.assert(client.asked === 1, "the account is fetched once");
  const other: any = { asked: 0, getMe() { ++this.asked; return Promise.resolve({ ...me, id: 6 }); } };
  await handle(c, other, one, t.held);
  G.assert(other.asked === 1 && t.contexts[t.contexts.length - 1].me.id === 6, "another client's account is another");
}

export async function together() {
  const t = new Trace();
  const c = build(G.choose(SHAPES), [t.mw("a", 7), t.mw("b", [0, 2, 8][G.choose(3)]), t.mw("c", 0)]);
  const client: any = account();
  const one: any = { type: "x" }, two: any = { type: "y" };
  let done = 0;
  c.handleUpdate(client, one).then(() => ++done);
  c.handleUpdate(client, two).then(() => ++done);
  await G.settle();
  G.assert(t.log.length === 2 && done === 0, "both wait in their first middleware");
  (G.choose(2) ? t.held.pop() : t.held.shift())();
  await G.settle();
  G.assert(same(t.log.slice(2), ["+b", "+c", "-c", "-b", "-a"]) && done === 1, "one goes on");
  t.held.pop()();
  await G.settle();
  G.assert(same(t.log.slice(7), ["+b", "+c", "-c", "-b", "-a"]) && done === 2, "then the other");
  G.assert(t.contexts[2].update === t.contexts[3].update && t.contexts[4].update === t.contexts[5].update && t.contexts[2].update !== t.contexts[4].update, "each with its own update");
}

export async function branches() {
  const t = new Trace();
  const root: any = new Composer<any>();
  const yes = G.choose(2) === 0;
  const asked: any[] = [];
  const later = G.choose(2) === 0;
  const predicate = (ctx: any) => {
    asked.push(ctx);
    return later ? Promise.resolve(yes) : yes;
  };
  const kinds = [G.choose(2), G.choose(2)];
  const shape = G.choose(3);
  if (shape === 0) root.branch(predicate, t.mw("t", kinds[0]), t.mw("f", kinds[1]));
  if (shape === 1) root.branch(predicate, new Composer<any>(t.mw("t", kinds[0])), new Composer<any>(t.mw("f", kinds[1])));
  if (shape === 2) {
    const inner: any = new Composer<any>();
    root.branch(predicate, inner, { middleware: () => t.mw("f", kinds[1]) });
    inner.use(t.mw("t", kinds[0]));
  }
  root.use(t.mw("z", 0));
  const update: any = { type: "x" };
  await handle(root, account(), update, t.held);
  const stop = kinds[yes ? 0 : 1] === 1;
  const name = yes ? "t" : "f";
  G.assert(same(t.log, stop ? ["+" + name, "-" + name] : ["+" + name, "+z", "-z", "-" + name]), "the side the predicate says runs, and no other");
  G.assert(asked.length === 1 && asked[0].update === update, "the predicate is asked once, about this update");
}

export async function filters() {
  const t = new Trace();
  const root: any = new Composer<any>();
  const yes = G.choose(2) === 0;
  const kind = G.choose(2);
  const nested = G.choose(2) === 0;
  const f = root.filter(() => yes, ...(nested ? [] : [t.mw("f", kind)]));
  if (nested) f.use(t.mw("f", kind));
  root.use(t.mw("z", 0));
  await handle(root, account(), { type: "x" }, t.held);
  G.assert(same(t.log, !yes ? ["+z", "-z"] : kind === 1 ? ["+f", "-f"] : ["+f", "+z", "-z", "-f"]), "a filter's middleware runs for what it lets through");
}

// the account is not asked for before there is one
export async function accounts() {
  const t = new Trace();
  const root: any = new Composer<any>(t.mw("a", 0));
  const client: any = account();
  const update: any = [
    { type: "connectionState", connectionState: "ready" },
    { type: "authorizationState", authorizationState: { isAuthorized: false } },
    { type: "authorizationState", authorizationState: { isAuthorized: true } },
    { type: "message", message: {} },
  ][G.choose(4)];
  await handle(root, client, update, t.held);
  const known = update.type === "message" || (update.type === "authorizationState" && update.authorizationState.isAuthorized);
  G.assert(client.asked === (known ? 1 : 0) && t.contexts[0].me === (known ? me : undefined), "the account is asked for when there is one");
  await handle(root, client, { type: "message", message: {} }, t.held);
  G.assert(client.asked === 1 && t.contexts[1].me === me, "and once");
}

// Conditions.
const matches = (condition: any, update: any, who: any = me): boolean => condition(new Context({} as any, who, update));
const KINDS_OF_UPDATE = ["message", "editedMessage", "scheduledMessage", "callbackQuery", "inlineQuery", "chosenInlineResult", "deletedMessages", "connectionState", "update"];
const MESSAGES = ["text", "photo", "document", "sticker", "dice", "link"];
function draw(): any {
  const type = KINDS_OF_UPDATE[G.choose(KINDS_OF_UPDATE.length)];
  if (type === "message" || type === "editedMessage" || type === "scheduledMessage") {
    const kind = MESSAGES[G.choose(MESSAGES.length)];
    const message: any = { type: kind, id: 1, chat: { type: "private", id: 1 } };
    message[kind] = kind === "text" ? G.str() : {};
    // a link has a text too
    if (kind === "link") message.text = "https://example.org";
    return { type, [type]: message };
  }
  if (type === "callbackQuery") return { type, callbackQuery: G.choose(2) ? { id: "1", data: G.str() } : { id: "1", gameShortName: "x" } };
  if (type === "inlineQuery") return { type, inlineQuery: { id: "1", query: G.str() } };
  if (type === "chosenInlineResult") return { type, chosenInlineResult: { id: "1", query: G.str() } };
  if (type === "update") return { type, update: { _: ["updateConfig", "updatePtsChanged"][G.choose(2)] } };
  return { type, [type]: {} };
}
export function kinds_of_updates() {
  const u = draw();
  for (const k of KINDS_OF_UPDATE) {
    G.assert(matches(Context.has.filterQuery(k as any), u) === (u.type === k), "an update matches its own kind and no other");
    for (const m of MESSAGES) {
      if (!k.endsWith("essage")) continue;
      G.assert(matches(Context.has.filterQuery(k + ":" + m as any), u) === (u.type === k && u[k].type === m), "a message matches its own kind and no other");
    }
  }
  for (const m of MESSAGES) {
    G.assert(matches(Context.has.filterQuery(":" + m as any), u) === (u.type.endsWith("essage") && u[u.type].type === m), "any message of the kind, received, edited or scheduled");
  }
  for (const f of ["data", "gameShortName"]) {
    G.assert(matches(Context.has.filterQuery("callbackQuery:" + f as any), u) === (u.type === "callbackQuery" && f in u.callbackQuery), "a field is there or not");
  }
  for (const raw of ["updateConfig", "updatePtsChanged"]) {
    G.assert(matches(Context.has.filterQuery(raw as any), u) === (u.type === "update" && u.update._ === raw), "a raw update matches its own name");
  }
}
export function data_and_queries() {
  const u = draw();
  const a = G.str(), b = G.str();
  const many = G.choose(2) === 0;
  const given: any = many ? [a, b] : a;
  const is = (x: string) => x === a || (many && x === b);
  G.assert(matches(Context.has.callbackQuery(given), u) === G.pure(() => u.type === "callbackQuery" && "data" in u.callbackQuery && is(u.callbackQuery.data)), "callback data is compared whole");
  G.assert(matches(Context.has.inlineQuery(given), u) === G.pure(() => u.type === "inlineQuery" && is(u.inlineQuery.query)), "inline queries are compared whole");
  G.assert(matches(Context.has.chosenInlineResult(given), u) === G.pure(() => u.type === "chosenInlineResult" && is(u.chosenInlineResult.query)), "and chosen ones");
}
const CHATS = ["private", "group", "supergroup", "channel"];
export function chat_types() {
  const type = CHATS[G.choose(4)];
  const place = G.choose(5);
  const message: any = { type: "text", text: "", chat: { type } };
  const u: any = [
    { type: "message", message },
    { type: "editedMessage", editedMessage: message },
    { type: "callbackQuery", callbackQuery: { message } },
    { type: "callbackQuery", callbackQuery: {} },
    { type: "inlineQuery", inlineQuery: { query: "" } },
  ][place];
  const a = CHATS[G.choose(4)], b = CHATS[G.choose(4)];
  const many = G.choose(2) === 0;
  G.assert(matches(Context.has.chatType((many ? [a, b] : a) as any), u) === (place < 3 && (type === a || (many && type === b))), "by the kind of the chat, where there is one");
}
// commands: the first word of the text, in any case, for this bot if a bot is named
const WORDS = ["start", "Start", "stop", "STOP", "starts", "sta", ""];
const AT = ["", "@robot", "@ROBOT", "@other"];
const TAILS = ["", " ", " now", "\nnow", " @other", " /stop"];
const PREFIXES: any[] = [undefined, "/", "!", ["!", "."], []];
const MARKS = ["/", "!", ".", "\\", ""];
function command(word: string, at: string, tail: string, prefixes: any, isBot: boolean, wanted: string[], how: number) {
  const mark = MARKS[G.choose(MARKS.length)];
  const given: any = how === 0 && wanted.length === 1 ? wanted[0] : how === 1 ? { names: wanted, ...(prefixes === undefined ? {} : { prefixes }) } : wanted;
  const fallback = how === 1 ? "?" : prefixes;
  const effective = how === 1 ? prefixes ?? "?" : prefixes ?? [];
  const list = Array.isArray(effective) ? effective : [effective];
  const marks = list.length ? list : [isBot ? "/" : "\\"];
  const u: any = { type: "message", message: { type: "text", text: mark + word + at + tail } };
  const expected = mark !== "" && marks.includes(mark) && wanted.some((x) => x.toLowerCase() === word.toLowerCase()) && at !== "@other";
  G.assert(matches(Context.has.command(given, fallback), u, { ...me, isBot }) === expected, "a command is the first word after a prefix, in any case, addressed to this account");
}
export function commands() {
  const word = WORDS[G.choose(WORDS.length)], at = AT[G.choose(AT.length)], tail = TAILS[G.choose(TAILS.length)];
  const config = G.choose(3);
  command(word, at, tail, [undefined, "!", ["!", "."]][config], true, config === 1 ? ["Start", "stop"] : ["start"], 0);
}
export function command_settings() {
  const prefixes = PREFIXES[G.choose(PREFIXES.length)];
  command(WORDS[G.choose(3)], "", "", prefixes, G.choose(2) === 0, [["start"], ["Start", "stop"], ["stop"]][G.choose(3)], G.choose(3));
}
export function not_commands() {
  const u = draw();
  if (u.type === "message" && u.message.type === "text") u.message.text = "/stop";
  G.assert(matches(Context.has.command("stop", undefined), u) === (u.type === "message" && u.message.type === "text"), "only a new text message is a command");
  const a = ["/", "!", "!!", "/?"][G.choose(4)], b = ["/", "!", "!!", "/?"][G.choose(4)];
  let refused = false;
  try {
    Context.has.command("stop", [a, b]);
  } catch {
    refused = true;
  }
  G.assert(refused === (a !== b && (a.startsWith(b) || b.startsWith(a))), "prefixes of which one begins another are refused");
}
