// C31: a request is answered by the data center it is for, with the authorization of the account; what fails is repeated when it may be, and only then.
import * as G from "./ghost.ts";
import { AuthKeyUnregistered } from "file:///repo/3_errors.ts";
import { ConnectionError } from "file:///repo/0_errors.ts";
import { telegramError, World } from "./world.ts";

const ASK = { _: "help.getNearestDc" } as any;
const ROUTES: [any, string, boolean][] = [
  [undefined, "2", false],
  [{}, "2", false],
  [{ dc: "2" }, "2", false],
  [{ dc: "4" }, "4", false],
  [{ dc: "5" }, "5", false],
  [{ type: "download" }, "2", true],
  [{ type: "download", dc: "4" }, "4", true],
  [{ type: "upload" }, "2", true],
];
async function outcome(p: Promise<any>) {
  try {
    return { ok: true, value: await p, error: undefined as any };
  } catch (error) {
    return { ok: false, value: undefined as any, error };
  }
}
// each request was answered once, where it belongs
function answered(w: World, results: any[], routes: number[]) {
  for (const [i, r] of results.entries()) G.assert(r.ok && r.value.this_dc === parseInt(ROUTES[routes[i]][1]), "every request is answered by its data center");
  const served = w.of("help.getNearestDc").filter((c) => w.authorized.has(c.key) && !(c as any).failed);
  for (const [, dc, media] of new Set(routes.map((r) => ROUTES[r]))) {
    const n = routes.filter((r) => ROUTES[r][1] === dc && ROUTES[r][2] === media).length;
    G.assert(served.filter((c) => c.dc === dc && c.media === media).length >= n, "over a connection of the right kind");
  }
  G.assert(w.exported.every((e) => e.used) && new Set(w.calls.filter((c) => c.dc === "2").map((c) => c.key)).size <= 1, "with the key of the account in its own data center and one made for it elsewhere");
}
export async function one_after_another() {
  const w = new World();
  await w.signedIn();
  const c = w.client();
  await c.connect();
  const routes = [G.choose(ROUTES.length), G.choose(ROUTES.length)];
  const results = [];
  for (const r of routes) results.push(await outcome(c.invoke(ASK, ROUTES[r][0])));
  answered(w, results, routes);
  G.assert(w.of("auth.importAuthorization").length === new Set(w.links.filter((l) => l.client.dc !== "2").map((l) => l.client.authKey[0])).size, "each other key is authorized once");
  const n = w.calls.length;
  G.assert((await outcome(c.invoke(ASK, ROUTES[routes[0]][0]))).ok, "and used again");
  G.assert(ROUTES[routes[0]][2] || w.calls.length === n + 1, "without asking for anything else");
}
export async function at_once() {
  const w = new World();
  await w.signedIn();
  const c = w.client();
  await c.connect();
  const routes = [G.choose(ROUTES.length), G.choose(ROUTES.length)];
  answered(w, await Promise.all(routes.map((r) => outcome(c.invoke(ASK, ROUTES[r][0])))), routes);
}
// What was authorized is used by the next program.
export async function next_program() {
  const w = new World();
  await w.signedIn();
  const c = w.client();
  await c.connect();
  const route = G.choose(ROUTES.length);
  answered(w, [await outcome(c.invoke(ASK, ROUTES[route][0]))], [route]);
  await c.disconnect();
  G.assert(c.isDisconnected && w.links.every((l) => !l.open), "nothing stays open");
  const n = w.calls.length;
  const d = w.client();
  await d.connect();
  const r = await outcome(d.invoke(ASK, ROUTES[route][0]));
  G.assert(r.ok && r.value.this_dc === parseInt(ROUTES[route][1]), "it is answered again");
  G.assert(w.calls.slice(n).filter((x) => x.f._ === "help.getNearestDc").length === 1 && w.calls.slice(n).every((x) => x.f._ !== "auth.importAuthorization") && w.links.every((l) => l.client.authKey.length === 0 || w.authorized.has(l.client.authKey[0])), "without another authorization");
}
// A request fails once or twice with an error of some kind.
export async function failures() {
  const w = new World();
  await w.signedIn();
  const c = w.client();
  await c.connect();
  const route = G.choose(ROUTES.length), kind = G.choose(6), times = 1 + G.choose(2);
  const [params, dc, media] = ROUTES[route];
  const main = dc === "2" && !media;
  let n = 0, last: any;
  w.hook = (link, f) => {
    if (f._ !== "help.getNearestDc" || !w.authorized.has(link.client.authKey[0]) || n === times) return;
    ++n;
    if (kind === 1) link.client.disconnect();
    if (kind === 2) w.authorized.delete(link.client.authKey[0]);
    if (kind < 2) last = new ConnectionError("lost");
    else if (kind === 2) last = new AuthKeyUnregistered({ error_code: 401, error_message: "AUTH_KEY_UNREGISTERED", call: f } as any);
    else if (kind === 3) last = telegramError("CHAT_ADMIN_REQUIRED");
    else if (kind === 4) last = telegramError("FLOOD_WAIT_11", 420);
    else last = new Error("something else");
    return last;
  };
  // losing an own key in the own data center is for the user
  if (kind === 2 && dc === "2") return;
  const r = await outcome(c.invoke(ASK, params));
  if (kind < 3 && !main) G.assert(r.ok && r.value.this_dc === parseInt(dc) && n === times, "it is repeated over another connection");
  else G.assert(!r.ok && n === 1 && r.error === last, "the error is reported and nothing is repeated");
}
// A short wait that the server asks for is kept.
export async function short_waits() {
  const w = new World();
  await w.signedIn();
  const byDefault = G.choose(2) === 0;
  const c = w.client(byDefault ? {} : { defaultHandlers: false });
  await c.connect();
  const seconds = [0, 1, 5, 10][G.choose(4)], times = 1 + G.choose(2);
  let n = 0;
  w.hook = (_link, f) => f._ === "help.getNearestDc" && n++ < times ? telegramError("FLOOD_WAIT_" + seconds, 420) : undefined;
  let done: any = null;
  outcome(c.invoke(ASK)).then((r) => done = r);
  await G.settle();
  if (!byDefault) {
    G.assert(done !== null && !done.ok && n === 1, "it is reported when that is wanted");
    return;
  }
  for (let i = 1; i <= times; ++i) {
    G.assert(done === null && n === i, "nothing is sent before it is over");
    G.timers(seconds * 1000 - 1);
    await G.settle();
    G.assert(done === null && n === i, "not even a little before");
    G.timers(seconds * 1000);
    await G.settle();
  }
  G.assert(done !== null && done.ok && n === times + 1, "the request is repeated then");
}
// Error handlers decide in the order they were added, each client's its own.
export async function error_handlers() {
  const w = new World();
  await w.signedIn();
  const clients = [w.client({ defaultHandlers: false }), w.client({ defaultHandlers: false })];
  const which = G.choose(2), c = clients[which];
  // what the handlers do: 0 pass on, 1 repeat, 2 do not, 3 repeat the first time only, 4 ask the next twice
  const kinds = [G.choose(5), G.choose(4)];
  const log: string[] = [];
  const error = telegramError("CHAT_ADMIN_REQUIRED");
  let ok = true;
  for (const [i, k] of kinds.entries()) {
    c.invoke.use(async (ctx: any, next: any) => {
      log.push(i + ":" + ctx.n);
      ok &&= ctx.client === c && ctx.error === error && ctx.function._ === "help.getNearestDc";
      if (k === 0) return await next();
      if (k === 1) return true;
      if (k === 4) return await next() === await next() && await next();
      if (k === 3) return ctx.n === 1;
      return false;
    });
  }
  await c.connect();
  let n = 0;
  w.hook = (_link, f) => f._ === "help.getNearestDc" && n++ < 3 ? error : undefined;
  const r = await outcome(c.invoke(ASK));
  const expected: string[] = [];
  let repeated = 0, result = true;
  for (; result && repeated < 3;) {
    result = false;
    for (const [i, k] of kinds.entries()) {
      expected.push(i + ":" + (repeated + 1));
      if (k === 0 || k === 4) continue;
      result = k === 1 || k === 3 && repeated === 0;
      break;
    }
    if (result) ++repeated;
  }
  G.assert(log.join(" ") === expected.join(" ") && ok, "they are asked in order, with what failed and how often");
  G.assert(r.ok === (repeated === 3) && (r.ok || r.error === error) && n === (r.ok ? 4 : repeated + 1), "and what the first that decides says is done");
  const before = log.length;
  n = 0;
  const other = clients[1 - which];
  await c.disconnect();
  await other.connect();
  const q = await outcome(other.invoke(ASK));
  G.assert(!q.ok && n === 1 && log.length === before, "another client is not affected");
}
export async function not_connected() {
  const w = new World();
  await w.signedIn();
  const c = w.client();
  const r = await outcome(c.invoke(ASK, ROUTES[G.choose(ROUTES.length)][0]));
  G.assert(!r.ok && r.error instanceof ConnectionError && w.calls.length === 0, "a client that is not connected asks nobody");
}
