// The server's end of an MTProto 2.0 session, and a transport under the control of a contract; shared by contract files.
import * as G from "./ghost.ts";
import { concat, ige256Decrypt, ige256Encrypt } from "file:///repo/0_deps.ts";

export const digest = async (x: any) => new Uint8Array(await crypto.subtle.digest("SHA-256", x));
export const sha1 = async (x: any) => new Uint8Array(await crypto.subtle.digest("SHA-1", x));

// ---- the other end of the line, written from the protocol description (MTProto 2.0; x = 0 to the server, 8 from it) ----
async function keys(authKey: Uint8Array, msgKey: Uint8Array, x: number) {
  const a = await digest(concat([msgKey, authKey.subarray(x, x + 36)]));
  const b = await digest(concat([authKey.subarray(x + 40, x + 76), msgKey]));
  return {
    key: concat([a.subarray(0, 8), b.subarray(8, 24), a.subarray(24, 32)]),
    iv: concat([b.subarray(0, 8), a.subarray(8, 24), b.subarray(24, 32)]),
  };
}
export async function msgKeyOf(authKey: Uint8Array, plain: Uint8Array, x: number) {
  return (await digest(concat([authKey.subarray(88 + x, 120 + x), plain]))).subarray(8, 24);
}
export async function seal(authKey: Uint8Array, plain: Uint8Array, x: number) {
  const msgKey = await msgKeyOf(authKey, plain, x);
  const { key, iv } = await keys(authKey, msgKey, x);
  return concat([(await sha1(authKey)).subarray(12, 20), msgKey, ige256Encrypt(plain, key, iv)]);
}
export async function open(authKey: Uint8Array, packet: Uint8Array, x: number) {
  const msgKey = packet.subarray(8, 24);
  const { key, iv } = await keys(authKey, msgKey, x);
  return ige256Decrypt(packet.subarray(24), key, iv);
}
export function u(b: Uint8Array, off: number, n: number) {
  let v = 0n;
  for (let i = n - 1; i >= 0; i--) v = v * 256n + BigInt(b[off + i]);
  return v;
}
export const signed = (v: bigint, bits: bigint) => v >= 1n << (bits - 1n) ? v - (1n << bits) : v;
export function le(v: bigint, n: number) {
  const b = new Uint8Array(n);
  for (let i = 0; i < n; i++) b[i] = Number((v >> BigInt(8 * i)) & 255n);
  return b;
}

// ---- a transport under the control of the contract ----
export class Wire {
  isConnected = false;
  stateChangeHandler: any;
  callback: any;
  sent: Uint8Array[] = [];
  waiting: any = null;
  onSend: any = null;
  onReceive: any = null;
  open() {
    this.isConnected = true;
  }
  close() {
    this.isConnected = false;
    this.waiting?.reject(new Error("closed"));
    this.waiting = null;
  }
  // the other end goes away
  lose() {
    this.close();
    this.stateChangeHandler(false);
  }
  initialize() {}
  send(b: Uint8Array) {
    this.sent.push(b.slice());
    const f = this.onSend;
    this.onSend = null;
    if (f) f();
  }
  receive() {
    const p = Promise.withResolvers<Uint8Array>();
    this.waiting = p;
    const f = this.onReceive;
    this.onReceive = null;
    if (f) f();
    return p.promise;
  }
  // hands a packet to the receiver and waits until it asks for the next one
  async deliver(b: Uint8Array) {
    const p = Promise.withResolvers<void>();
    const w = this.waiting;
    this.waiting = null;
    this.onReceive = p.resolve;
    w.resolve(b);
    await p.promise;
  }
  nextSend() {
    const p = Promise.withResolvers<void>();
    this.onSend = p.resolve;
    return p.promise;
  }
}
