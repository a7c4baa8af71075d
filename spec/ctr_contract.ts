// The contract of the stream cipher (utilities/1_crypto.ts: CTR), discharged by C14 and used in its place elsewhere: a call processes
// the next bytes of one stream encrypted with AES-CTR.
export async function aesCtr(key: Uint8Array, iv: Uint8Array, data: Uint8Array) {
  const k = await crypto.subtle.importKey("raw", key as any, { name: "AES-CTR" }, false, ["encrypt"]);
  return new Uint8Array(await crypto.subtle.encrypt({ name: "AES-CTR", counter: iv as any, length: 128 }, k, data as any));
}
export class CtrContract {
  key: any;
  iv: Uint8Array;
  position = 0;
  constructor(key: any, iv: Uint8Array) {
    this.key = key;
    this.iv = iv.slice();
  }
  static importKey(key: any) {
    return crypto.subtle.importKey("raw", key, { name: "AES-CTR" }, false, ["encrypt"]);
  }
  async call(data: Uint8Array) {
    const at = this.position;
    this.position += data.length;
    const padded = new Uint8Array(at + data.length);
    padded.set(data, at);
    const out = new Uint8Array(await crypto.subtle.encrypt({ name: "AES-CTR", counter: this.iv as any, length: 128 }, this.key, padded as any));
    return out.slice(at);
  }
}
