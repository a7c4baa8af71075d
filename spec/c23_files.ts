// C23: a file that is sent or fetched arrives whole, in order, once.
import * as G from "./ghost.ts";
import { FileManager } from "file:///repo/client/2_file_manager.ts";
import { ige256Decrypt, ige256Encrypt, encodeHex } from "file:///repo/0_deps.ts";
import { FloodWait } from "file:///repo/4_errors.ts";
import { TimeTooBig } from "file:///repo/3_errors.ts";

const KB = 1024;
// The server: keeps the parts it has accepted, serves the file it has, and answers in any order.
class Server {
  held: any[] = []; // requests not answered yet
  parts: any[] = []; // accepted parts, in the order of acceptance
  requests: any[] = [];
  errors: any[] = []; // errors to answer the coming answers with, undefined: none
  turn = false;
  order = 0; // 0: oldest request first, 1: newest first, 2: the two readers in turn
  file: any = null;
  events: any[] = [];
  stored: any = null;
  storage: any;
  sealed: any = null; // the file as the parts it was encrypted in
  constructor() {
    const files: any[] = [], parts: any[] = [];
    this.storage = {
      supportsFiles: true,
      getFile: async (id: bigint) => {
        for (const f of files) if (f.id === id) return [f.count, f.size];
        return null;
      },
      setFilePartCount: async (id: bigint, count: number, size: number) => {
        files.unshift({ id, count, size });
      },
      saveFilePart: async (id: bigint, index: number, bytes: Uint8Array) => {
        parts.unshift({ id, index, bytes: G.snap(bytes) });
      },
      iterFileParts: async function* (id: bigint, count: number, offset: number) {
        for (let i = offset; i < count; i++) {
          for (const p of parts) {
            if (p.id === id && p.index === i) {
              yield p.bytes;
              break;
            }
          }
        }
      },
    };
  }
  client(pool: number): any {
    return {
      id: 0,
      storage: this.storage,
      getUploadPoolSize: async () => pool,
      handleUpdate: (u: any) => this.events.push(u.uploadProgress),
      invoke: (r: any, o: any) => {
        this.requests.push(r);
        const kind = r._ === "upload.getFile" ? "download" : "upload";
        G.assert(o.type === kind, "requests go over the connections for their kind");
        const bytes = r.bytes === undefined ? undefined : G.snap(r.bytes);
        return new Promise((resolve, reject) => this.held.push({ r, bytes, sent: r.bytes, resolve, reject }));
      },
    };
  }
  answer() {
    let h: any = null;
    if (this.order === 2) {
      // turn by turn between the two readers
      this.turn = !this.turn;
      for (let i = 0; i < this.held.length; i++) {
        if (this.held[i].r.location.reader === (this.turn ? "a" : "b") || i === this.held.length - 1) {
          h = this.held[i];
          this.held.splice(i, 1);
          break;
        }
      }
    } else h = this.order === 0 ? this.held.shift() : this.held.pop();
    const e = this.errors.shift();
    if (e !== undefined) {
      h.reject(e);
      return;
    }
    if (h.r._ === "upload.getFile") {
      const o = Number(h.r.offset), end = o + h.r.limit, size = this.file.length;
      let bytes: any = null;
      if (G.symbolic && this.sealed !== null) {
        for (let i = 0; i < this.sealed.length; i++) if (bytes === null && G.pure(() => o === i * h.r.limit)) bytes = this.sealed[i];
      }
      if (bytes === null) bytes = this.file.slice(o < size ? o : size, end < size ? end : size);
      h.resolve({ _: "upload.file", type: { _: "storage.fileUnknown" }, mtime: 0, bytes });
    } else {
      this.parts.push({ ...h.r, bytes: h.bytes, sent: h.sent });
      h.resolve(true);
    }
  }
  // lets the work go on until it is over
  async run(work: Promise<any>, limit = 200): Promise<any> {
    let result: any = null;
    work.then((value) => result = { value }, (error) => result = { error });
    for (let i = 0; i < limit && result === null; i++) {
      await G.settle();
      if (result !== null) break;
      if (this.held.length) this.answer();
      else G.timers();
    }
    await G.settle();
    return result;
  }
}
// what the server holds is the file, cut into the announced number of parts
function verify(srv: Server, data: Uint8Array, input: any, chunk: number, small: boolean, key?: Uint8Array, iv?: Uint8Array) {
  const n = input.parts;
  G.assert(n >= 1 && srv.parts.length === n, "every announced part has been accepted, once");
  let at = 0;
  for (let i = 0; i < n; i++) {
    let part: any = null;
    for (const p of srv.parts) if (p.file_part === i) part = p;
    if (part === null) G.fail("every part has been accepted");
    G.assert(part.file_id === input.id, "parts are sent under the file's identifier");
    G.assert(part._ === (small ? "upload.saveFilePart" : "upload.saveBigFilePart"), "parts are sent in the way of the file's kind");
    let plain = part.bytes;
    let size = plain.length;
    if (key) {
      G.assert(plain.length % 16 === 0, "an encrypted part is whole blocks");
      plain = ige256Decrypt(G.symbolic ? part.sent : part.bytes, key as any, iv as any);
      const next = new Uint8Array(32);
      next.set(part.bytes.subarray(-16), 0);
      next.set(plain.subarray(-16), 16);
      iv = next;
      size = i === n - 1 ? data.length - at : plain.length;
      G.assert(i < n - 1 || (size <= plain.length && plain.length - size < 16), "only the last part is padded, by less than a block");
    }
    G.assert(size >= 1 && size <= chunk && (i === n - 1 || size === chunk), "every part but the last has the full size");
    G.assert(G.eqRange(plain, 0, data, at, size), "the bytes of a part are those of the file at its place");
    at += size;
  }
  G.assert(at === data.length, "the parts are the whole file");
}
const BIG = 10 * KB * KB;
function size(n: number): number {
  return KB * G.int(1, G.symbolic ? 512 : n > 4 ? 2 : 512);
}
function name(input: any, small: boolean) {
  G.assert(input._ === (small ? "inputFile" : "inputFileBig"), "a file is announced as what it was sent as");
}
export async function upload_buffer() {
  const n = 1 + G.choose(5);
  const chunk = size(n), data = G.bytes((n - 1) * chunk + 1, n * chunk);
  const srv = new Server();
  srv.order = G.choose(2);
  const m = new FileManager(srv.client([1, 8][G.choose(2)]));
  const r = await srv.run(m.upload(data, { chunkSize: chunk, fileName: "a.bin" }));
  G.assert(r !== null && r.value !== undefined, "the file is sent");
  name(r.value, true);
  G.assert(r.value.name === "a.bin", "the file keeps its name");
  verify(srv, data, r.value, chunk, true);
}
// the largest file that is sent as a small one, and the first big ones
export async function upload_big() {
  const chunk = 512 * KB;
  const data = G.bytes(BIG - 1, BIG + chunk - 1);
  const srv = new Server();
  const m = new FileManager(srv.client(4));
  const r = await srv.run(m.upload(data));
  G.assert(r !== null && r.value !== undefined, "the file is sent");
  const small = data.length <= BIG;
  name(r.value, small);
  verify(srv, data, r.value, chunk, small);
  if (!small) for (const p of srv.parts) G.assert(p.file_total_parts === r.value.parts, "the number of parts is announced with each");
}
// AES-IGE by contract: what was encrypted under a key and a vector is given back under the same key and vector
function cipher() {
  if (!G.symbolic) return;
  const sealed: any[] = [];
  const usable = (d: Uint8Array, k: Uint8Array, v: Uint8Array) => G.assert(d.length > 0 && d.length % 16 === 0 && k.length === 32 && v.length === 32, "the cipher is given whole blocks, a key and a vector");
  G.override("0_deps.ts#ige256Encrypt", (d: Uint8Array, k: Uint8Array, v: Uint8Array) => {
    usable(d, k, v);
    const out = G.bytes(d.length, d.length);
    sealed.push({ plain: G.snap(d), k: G.snap(k), v: G.snap(v), out });
    return out;
  });
  G.override("0_deps.ts#ige256Decrypt", (d: Uint8Array, k: Uint8Array, v: Uint8Array) => {
    usable(d, k, v);
    let e: any = null;
    for (const x of sealed) if (x.out === d) e = x;
    if (e === null) for (const x of sealed) if (e === null && G.eqBytes(x.out, d)) e = x;
    if (e === null) return G.bytes(d.length, d.length);
    G.assert(G.eqBytes(e.k, k) && G.eqBytes(e.v, v), "each part is decrypted under the key and vector it was encrypted under");
    return G.snap(e.plain);
  });
}
// the standard library's crypto object is the platform's, with more digests
function platformCrypto() {
  G.override("../opt/mtkruto-deps/std/crypto/mod.ts#crypto", crypto);
}
export async function upload_encrypted() {
  platformCrypto();
  cipher();
  const n = 1 + G.choose(3);
  const chunk = size(n), data = G.bytes((n - 1) * chunk + 1, n * chunk);
  const key = G.bytes(32, 32), iv = G.bytes(32, 32);
  const srv = new Server();
  srv.order = G.choose(2);
  const m = new FileManager(srv.client(4));
  const r = await srv.run(m.upload(data, { chunkSize: chunk }, null, true, { key: G.snap(key), iv: G.snap(iv) } as any));
  G.assert(r !== null && r.value !== undefined, "the file is sent");
  const f = r.value.inputEncryptedFile;
  G.assert(f._ === "inputEncryptedFileUploaded", "a file is announced as what it was sent as");
  G.assert(r.value.fileSize === data.length, "the size is that of the file itself");
  verify(srv, data, f, chunk, true, key, iv);
}
// what a stream gives, in pieces of any size
export async function upload_stream() {
  const chunk = size(3);
  const k = 1 + G.choose(2);
  const data = G.bytes(1, k === 1 ? 3 * chunk : 2 * chunk);
  const cut = k === 1 ? data.length : G.int(0, data.length);
  const encrypted = G.choose(2) === 1;
  const key = G.bytes(32, 32), iv = G.bytes(32, 32);
  streams();
  platformCrypto();
  cipher();
  const srv = new Server();
  srv.order = G.choose(2);
  const m = new FileManager(srv.client([1, 4][G.choose(2)]));
  const src = source(k === 1 ? [data] : [data.slice(0, cut), data.slice(cut)]);
  const r = await srv.run(m.upload(src as any, { chunkSize: chunk }, null, true, (encrypted ? { key: G.snap(key), iv: G.snap(iv) } : undefined) as any));
  G.assert(r !== null && r.value !== undefined, "the stream is sent");
  const small = data.length <= chunk;
  const f: any = encrypted ? r.value.inputEncryptedFile : r.value;
  if (!encrypted) name(f, small);
  else {
    G.assert(f._ === (small ? "inputEncryptedFileUploaded" : "inputEncryptedFileBigUploaded"), "a file is announced as what it was sent as");
    G.assert(r.value.fileSize === data.length, "the size is that of the file itself");
  }
  verify(srv, data, f, chunk, small, encrypted ? key : undefined, encrypted ? iv : undefined);
  for (const p of srv.parts) {
    if (!small) G.assert(p.file_total_parts === (p.file_part === f.parts - 1 ? f.parts : -1), "the last part tells how many there are");
  }
}
// stand-ins for web streams: a transform stream as its own functions (C11), read as a list of what it gives
class Stream {
  chunks: any[];
  constructor(chunks: any) {
    this.chunks = chunks;
  }
  pipeThrough(t: any) {
    return { t, chunks: this.chunks };
  }
}
class Transform {
  hooks: any;
  constructor(hooks: any) {
    this.hooks = hooks;
  }
}
function streams() {
  if (!G.symbolic) return;
  G.stub("TransformStream", Transform);
  G.stub("ReadableStream", Stream);
  G.override("utilities/0_misc.ts#iterateReadableStream", async function* (s: any) {
    const out: any[] = [];
    const c = { enqueue: (p: any) => out.push(p) };
    for (const x of s.chunks) {
      await s.t.hooks.transform(x, c);
      while (out.length) yield out.shift();
    }
    await s.t.hooks.flush(c);
    while (out.length) yield out.shift();
  });
}
function source(chunks: Uint8Array[]): any {
  if (G.symbolic) return new Stream(chunks);
  return new ReadableStream({
    start(c) {
      for (const x of chunks) c.enqueue(x);
      c.close();
    },
  });
}
// a part that fails is sent again; a refusal that cannot be helped, and a cancellation, end the upload
export async function upload_errors() {
  const n = 1 + G.choose(3);
  const chunk = size(n), data = G.bytes((n - 1) * chunk + 1, n * chunk);
  const srv = new Server();
  srv.order = G.choose(2);
  const kind = G.choose(3);
  const at = G.choose(n);
  for (let i = 0; i < at; i++) srv.errors.push(undefined);
  if (kind === 0) srv.errors.push(new Error("the connection was closed"), new Error("the connection was closed"));
  if (kind === 1) srv.errors.push(new FloodWait({ error_message: "FLOOD_WAIT_7", error_code: 420 } as any));
  if (kind === 2) srv.errors.push(new TimeTooBig({ error_message: "TIME_TOO_BIG", error_code: 400 } as any));
  const m = new FileManager(srv.client(2));
  const work = m.upload(data, { chunkSize: chunk });
  const r = await srv.run(work);
  if (kind === 2) {
    G.assert(r !== null && r.error instanceof TimeTooBig, "a refusal for good is passed on");
    return;
  }
  G.assert(r !== null && r.value !== undefined, "a part that failed is sent again");
  name(r.value, true);
  verify(srv, data, r.value, chunk, true);
}
export async function upload_cancelled() {
  const n = 1 + G.choose(6);
  const chunk = size(n), data = G.bytes((n - 1) * chunk + 1, n * chunk);
  const srv = new Server();
  const controller = new AbortController();
  const m = new FileManager(srv.client(1));
  const work = m.upload(data, { chunkSize: chunk, signal: controller.signal } as any);
  work.catch(() => {});
  const at = G.choose(n);
  for (let i = 0; i < at; i++) {
    await G.settle();
    G.timers();
    if (srv.held.length) srv.answer();
  }
  controller.abort(new Error("enough"));
  const sent = srv.requests.length;
  if (G.choose(2) === 1 && srv.held.length > 1) srv.answer(); // one was accepted all the same
  await G.settle();
  while (srv.held.length) srv.held.shift().reject(new Error("cancelled"));
  const r = await srv.run(work);
  G.assert(r !== null && r.error !== undefined && r.error.message === "enough", "a cancelled upload fails with the reason of the cancellation");
  G.assert(srv.requests.length <= sent, "and sends no further parts");
}
// more parts than a big file of the usual part size has
export async function upload_many() {
  const data = G.bytes(20 * KB + 1, 22 * KB);
  const srv = new Server();
  srv.order = G.choose(2);
  const m = new FileManager(srv.client([1, 4][G.choose(2)]));
  const r = await srv.run(m.upload(data, { chunkSize: KB }));
  G.assert(r !== null && r.value !== undefined, "the file is sent");
  name(r.value, true);
  verify(srv, data, r.value, KB, true);
}
export async function upload_progress() {
  const n = 1 + G.choose(3);
  const chunk = size(n), data = G.bytes((n - 1) * chunk + 1, n * chunk);
  const srv = new Server();
  srv.order = G.choose(2);
  const m = new FileManager(srv.client(2));
  if (G.symbolic) {
    let ids = 7n;
    G.override("utilities/0_int.ts#getRandomId", () => ++ids);
  }
  const id = await m.getProgressId();
  const r = await srv.run(m.upload(data, { chunkSize: chunk, progressId: id }));
  G.assert(r !== null && r.value !== undefined, "the file is sent");
  let last = 0, done = 0;
  for (const e of srv.events) {
    G.assert(e.id === id && e.total === data.length, "progress is told for the upload it belongs to, out of its size");
    G.assert(e.uploaded >= last && e.uploaded <= data.length, "progress does not go back or past the end");
    last = e.uploaded;
    if (e.isUploaded) ++done;
  }
  G.assert(done === 1 && last === data.length && srv.events.at(-1).isUploaded, "it ends at the end");
  const again = await srv.run(m.upload(data, { chunkSize: chunk, progressId: id }));
  G.assert(again.error !== undefined, "an upload identifier is good for one upload");
}
export async function bad_sizes() {
  const srv = new Server();
  const m = new FileManager(srv.client(1));
  const chunk = G.int(-1e12, 1e12);
  G.assume(chunk <= 0 || chunk > 512 * KB || chunk % KB !== 0);
  const r = await srv.run(m.upload(new Uint8Array(10), { chunkSize: chunk }));
  G.assert(r.error !== undefined && srv.requests.length === 0, "a part size the server would refuse is refused");
  const e = await srv.run(m.upload(new Uint8Array(0)));
  G.assert(e.error !== undefined && srv.requests.length === 0, "an empty file is refused");
}
// ---- downloads ----
async function collect(g: any, out: any[]) {
  for await (const x of g) out.push(G.snap(x));
}
function whole(out: any[], data: Uint8Array, from: number) {
  let at = from;
  for (const x of out) {
    G.assert(at + x.length <= data.length && G.eqRange(x, 0, data, at, x.length), "the bytes given are those of the file at this place");
    at += x.length;
  }
  G.assert(at === data.length || (from >= data.length && at === from), "all bytes of the file are given");
}
const LOCATION = (id: bigint) => ({ _: "inputDocumentFileLocation", id, access_hash: 1n, file_reference: new Uint8Array(0), thumb_size: "" }) as any;
export async function download() {
  const n = G.choose(4);
  const chunk = size(n);
  const data = n === 0 ? G.bytes(0, 0) : G.bytes((n - 1) * chunk + 1, n * chunk);
  const srv = new Server();
  srv.file = data;
  srv.order = G.choose(2);
  if (G.choose(2) === 1) {
    const at = G.choose(2);
    for (let i = 0; i < at; i++) srv.errors.push(undefined);
    srv.errors.push(new Error("the connection was closed"));
  }
  const c = srv.client(1), m = new FileManager(c);
  const from = KB * G.int(0, Math.floor(data.length / KB) + 1);
  const out: any[] = [];
  const r = await srv.run(collect(m.downloadInner(LOCATION(5n), 2, { chunkSize: chunk, offset: from }), out));
  G.assert(r !== null && r.error === undefined, "the file is fetched");
  whole(out, data, from);
  for (const q of srv.requests) G.assert(q.limit === chunk && q.location.id === 5n, "requests are for the file, a part each");
}
// more parts than are asked for at a time
export async function download_long() {
  const n = 4 + G.choose(6);
  const chunk = size(n), data = G.bytes((n - 1) * chunk + 1, n * chunk);
  const srv = new Server();
  srv.file = data;
  srv.order = G.choose(2);
  const m = new FileManager(srv.client(1));
  const out: any[] = [];
  const r = await srv.run(collect(m.downloadInner(LOCATION(5n), 2, { chunkSize: chunk }), out));
  G.assert(r !== null && r.error === undefined, "the file is fetched");
  whole(out, data, 0);
}
// a file that was fetched whole is kept and given again, from any place, without asking the server
export async function download_again() {
  const n = G.choose(4);
  const chunk = size(n);
  const data = n === 0 ? G.bytes(0, 0) : G.bytes((n - 1) * chunk + 1, n * chunk);
  const srv = new Server();
  srv.file = data;
  const m = new FileManager(srv.client(1));
  const first: any[] = [];
  const how = G.choose(3);
  const stop = how === 1; // the first reader stops after the first bytes
  const start = how === 2 ? KB * G.int(1, Math.floor(data.length / KB) + 1) : 0; // or begins further on
  const g = m.downloadInner(LOCATION(5n), 2, { chunkSize: chunk, offset: start });
  const r = await srv.run(stop ? g.next() : collect(g, first));
  G.assert(r !== null && r.error === undefined, "the file is fetched");
  if (stop) await srv.run(g.return(undefined));
  else whole(first, data, start);
  const asked = srv.requests.length;
  srv.held = [];
  const from = KB * G.int(0, Math.floor(data.length / KB));
  const out: any[] = [];
  const s = await srv.run(collect(m.downloadInner(LOCATION(5n), 2, { chunkSize: chunk, offset: from }), out));
  G.assert(s !== null && s.error === undefined, "and again");
  whole(out, data, from);
  if (how === 0) G.assert(srv.requests.length === asked, "without asking the server");
  const other: any[] = [];
  srv.file = new Uint8Array([1, 2, 3]);
  await srv.run(collect(m.downloadInner(LOCATION(6n), 2, { chunkSize: chunk }), other));
  whole(other, srv.file, 0);
}
// two readers at a time, with parts of different sizes
export async function download_together() {
  const a = size(3), b = size(3);
  const n = 1 + G.choose(2);
  const big = a < b ? b : a;
  const data = G.bytes((n - 1) * a + 1, n * a);
  G.assume(data.length <= 2 * b);
  const srv = new Server();
  srv.file = data;
  srv.order = G.choose(3);
  const m = new FileManager(srv.client(1));
  const one: any[] = [], two: any[] = [];
  const x = collect(m.downloadInner({ ...LOCATION(5n), reader: "a" }, 2, { chunkSize: a }), one);
  const y = collect(m.downloadInner({ ...LOCATION(5n), reader: "b" }, 2, { chunkSize: b }), two);
  const r = await srv.run(Promise.all([x, y]));
  G.assert(r !== null && r.error === undefined, "both are served");
  whole(one, data, 0);
  whole(two, data, 0);
  const again: any[] = [];
  const s = await srv.run(collect(m.downloadInner(LOCATION(5n), 2, { chunkSize: big }), again));
  G.assert(s !== null && s.error === undefined, "and a third one after them");
  whole(again, data, 0);
}
export async function download_encrypted() {
  cipher();
  await encrypted(1 + G.choose(3), true);
}
export async function download_encrypted_long() {
  cipher();
  await encrypted(5 + G.choose(2), false);
}
async function encrypted(n: number, anywhere: boolean) {
  const chunk = size(n), data = G.bytes((n - 1) * chunk + 1, n * chunk);
  const key = new Uint8Array(32).fill(7), iv0 = new Uint8Array(32).fill(9);
  // the sender's half: whole blocks, chained
  const srv = new Server();
  const parts: any[] = [];
  let iv: any = iv0;
  for (let i = 0; i < n; i++) {
    let plain = data.slice(i * chunk, (i + 1) * chunk < data.length ? (i + 1) * chunk : data.length);
    const pad = (16 - plain.length % 16) % 16;
    const padded = new Uint8Array(plain.length + pad);
    padded.set(plain, 0);
    plain = padded;
    const cipher = ige256Encrypt(plain as any, key as any, iv);
    iv = new Uint8Array(32);
    iv.set(cipher.subarray(-16), 0);
    iv.set(plain.subarray(-16), 16);
    parts.push(cipher);
  }
  let total = 0;
  for (const p of parts) total += p.length;
  const file = new Uint8Array(total);
  let at = 0;
  for (const p of parts) {
    file.set(p, at);
    at += p.length;
  }
  srv.file = file;
  srv.sealed = parts;
  srv.order = G.choose(2);
  const m = new FileManager(srv.client(1));
  const information = "0" + "07".repeat(32) + "09".repeat(32) + String(data.length);
  const from = anywhere ? KB * G.int(0, Math.floor(data.length / KB)) : chunk + KB;
  const out: any[] = [];
  const r = await srv.run(collect(m.downloadInner(LOCATION(5n), 2, { chunkSize: chunk, offset: from, fileInformation: information } as any), out));
  G.assert(r !== null && r.error === undefined, "the file is fetched");
  whole(out, data, from);
  const again: any[] = [];
  const s = await srv.run(collect(m.downloadInner(LOCATION(5n), 2, { chunkSize: chunk, fileInformation: information } as any), again));
  G.assert(s !== null && s.error === undefined, "and again");
  whole(again, data, 0);
}
export async function download_cancelled() {
  const n = 2 + G.choose(2);
  const chunk = size(n), data = G.bytes((n - 1) * chunk + 1, n * chunk);
  const srv = new Server();
  srv.file = data;
  const controller = new AbortController();
  const m = new FileManager(srv.client(1));
  const out: any[] = [];
  const work = collect(m.downloadInner(LOCATION(5n), 2, { chunkSize: chunk, signal: controller.signal } as any), out);
  work.catch(() => {});
  const k = G.choose(n);
  for (let i = 0; i < k; i++) {
    await G.settle();
    if (srv.held.length) srv.answer();
  }
  await G.settle();
  controller.abort(new Error("enough"));
  while (srv.held.length) srv.held.shift().reject(new Error("cancelled"));
  const asked = srv.requests.length;
  const r = await srv.run(work);
  G.assert(r !== null && r.error !== undefined && r.error.message === "enough", "a cancelled download fails with the reason of the cancellation");
  G.assert(srv.requests.length === asked, "and asks for nothing more");
  // what it had fetched is not taken for the whole file
  const again: any[] = [];
  const s = await srv.run(collect(m.downloadInner(LOCATION(5n), 2, { chunkSize: chunk }), again));
  G.assert(s !== null && s.error === undefined, "the file can still be fetched");
  whole(again, data, 0);
}
