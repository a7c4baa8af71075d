// C26: what is sent in a secret chat reaches the other side as it was, is readable only as the protocol says, and nothing else is accepted.
import * as G from "./ghost.ts";
import { SecretChats, X } from "file:///repo/2_tl.ts";
import { concat } from "file:///repo/0_deps.ts";
import { CHAT, encrypted, HASH, opened, plaintext, serviceLayer, Side, side, textLayer } from "./secret.ts";
import { le, msgKeyOf, seal, sha1, u } from "./server.ts";

const NOW = 1700000000000;
// a text that is not only white space, and that a TL string can hold
function draw(): string | null {
  const text = G.str(4096).trimEnd();
  return text.length === 0 ? null : text;
}
const SEQ = 1000000;
// The container: decided with ideal ciphers and digests.
export async function sealed() {
  G.setNow(NOW);
  const authKey = G.bytes(256, 256) as any;
  const isCreator = G.choose(2) === 0;
  const s = await side(isCreator, authKey);
  const text = "x".repeat([1, 2, 5, 9, 13, 300][G.choose(6)]);
  await s.manager.sendSecretMessage(CHAT, text);
  G.assert(s.sent.length === 1 && s.sent[0]._ === "messages.sendEncrypted", "one message is sent");
  const data = s.sent[0].data;
  const plain = await opened(authKey, data, isCreator);
  G.assert(G.eqRange(data, 0, await sha1(authKey), 12, 8), "it names its key");
  G.assert(G.eqRange(data, 8, await msgKeyOf(authKey, plain, isCreator ? 0 : 8), 0, 16), "its message key is that of the plaintext");
  const layer: any = await SecretChats.deserializeType(X, plain.subarray(4, 4 + Number(u(plain, 0, 4))));
  G.assert(layer.message.message === text, "it opens, with the key of the chat, to the text");
}
// The contents: what the other side reads when it opens the message.
export async function contents() {
  G.setNow(NOW);
  const authKey = G.bytes(256, 256) as any;
  const isCreator = G.choose(2) === 0;
  const outSeqNo = G.int(0, SEQ), inSeqNo = G.int(0, SEQ);
  const s = await side(isCreator, authKey, { outSeqNo, inSeqNo });
  const text = draw();
  if (text === null) return;
  await s.manager.sendSecretMessage(CHAT, text);
  const f = s.sent[0];
  const plain = await opened(authKey, f.data, isCreator);
  const length = Number(u(plain, 0, 4));
  const padding = plain.length - 4 - length;
  G.assert(G.pure(() => padding >= 12 && padding <= 1024 && plain.length % 16 === 0), "it is padded as the protocol asks");
  const layer: any = await SecretChats.deserializeType(X, plain.subarray(4, 4 + length));
  G.assert(G.pure(() => layer.out_seq_no === 2 * outSeqNo + (isCreator ? 1 : 0) && layer.in_seq_no === 2 * inSeqNo + (isCreator ? 0 : 1)), "it carries the next number and the count of what has been received");
  G.assert(layer.message.message === text, "it says what was given");
}
export async function settings() {
  G.setNow(NOW);
  const authKey = G.bytes(256, 256) as any;
  const isCreator = G.choose(2) === 0;
  const outSeqNo = G.int(0, SEQ), inSeqNo = G.int(0, SEQ);
  const s = await side(isCreator, authKey, { outSeqNo, inSeqNo });
  const ttl = G.int(0, 1000000);
  const silent = G.choose(2) === 0;
  const reply = G.choose(2) === 0 ? G.big(1n, (1n << 63n) - 1n) : undefined;
  await s.manager.sendSecretMessage(CHAT, "hello", { isSilent: silent, ttl, replyToMessageId: reply === undefined ? undefined : String(reply) });
  const f = s.sent[0];
  G.assert(s.sent.length === 1 && f.peer.chat_id === CHAT && f.peer.access_hash === HASH && f.silent === (silent ? true : undefined), "the message is sent to the chat");
  const plain = await opened(authKey, f.data, isCreator);
  const layer: any = await SecretChats.deserializeType(X, plain.subarray(4, 4 + Number(u(plain, 0, 4))));
  G.assert(layer._ === "decryptedMessageLayer" && layer.random_bytes.length >= 15 && layer.layer === 144, "it is wrapped in its layer");
  G.assert(G.pure(() => layer.out_seq_no === 2 * outSeqNo + (isCreator ? 1 : 0) && layer.in_seq_no === 2 * inSeqNo + (isCreator ? 0 : 1)), "it carries the next number and the count of what has been received");
  G.assert(layer.message.message === "hello" && layer.message.ttl === ttl && !!layer.message.silent === silent, "it says what was given");
  G.assert(layer.message.reply_to_random_id === reply, "and what it answers");
  G.assert(layer.message.random_id === f.random_id, "its identifier is that of the request");
  G.assert(s.state.outSeqNo === outSeqNo + 1 && s.state.inSeqNo === inSeqNo, "the count of sent messages is stored");
}
export async function incoming() {
  G.setNow(NOW);
  const authKey = G.bytes(256, 256) as any;
  const isCreator = G.choose(2) === 0;
  const s = await side(isCreator, authKey);
  const text = "x".repeat([1, 2, 5, 9, 13, 300][G.choose(6)]);
  const extra = G.choose(2);
  await s.deliver(await encrypted(authKey, textLayer(text, isCreator ? 0 : 1, isCreator ? 1 : 0), !isCreator, extra));
  G.assert(s.received.length === 1 && s.received[0].type === "secretMessage", "a message of the other side is delivered once");
  G.assert(s.received[0].secretMessage.text === text && s.received[0].secretMessage.chatId === CHAT, "as it was sent");
  G.assert(s.discarded === 0 && s.sent.length === 0, "and nothing else happens");
}
export async function incoming_contents() {
  G.setNow(NOW);
  const authKey = G.bytes(256, 256) as any;
  const isCreator = G.choose(2) === 0;
  const outSeqNo = G.int(0, SEQ), inSeqNo = G.int(0, SEQ);
  const answered = G.int(0, outSeqNo), remoteInSeqNo = G.int(0, answered);
  const s = await side(isCreator, authKey, { outSeqNo, inSeqNo, remoteInSeqNo });
  const id = G.big(-(1n << 63n), (1n << 63n) - 1n), reply = G.big(1n, (1n << 63n) - 1n), ttl = G.int(0, SEQ);
  const silent = G.choose(2) === 0;
  await s.deliver(await encrypted(authKey, textLayer("hello", 2 * inSeqNo + (isCreator ? 0 : 1), 2 * answered + (isCreator ? 1 : 0), { random_id: id, reply_to_random_id: reply, ttl, silent: silent || undefined }), !isCreator));
  G.assert(s.received.length === 1, "the next message is delivered");
  const m = s.received[0].secretMessage;
  G.assert(m.text === "hello" && m.id === String(id) && m.replyToMessageId === String(reply) && m.ttl === ttl && m.isSilent === silent, "as it was sent");
  G.assert(s.state.inSeqNo === inSeqNo + 1 && s.state.outSeqNo === outSeqNo && s.state.remoteInSeqNo === answered, "and counted");
}
// what the other side did not make, or made for the other direction, or was changed on the way
async function refuses(s: Side, data: Uint8Array, why: string) {
  let refused = false;
  try {
    await s.deliver(data);
  } catch {
    refused = true;
  }
  G.assert(refused && s.received.length === 0, why);
  G.assert(s.state.inSeqNo === 0 && s.discarded === 0, "what is refused changes nothing");
}
export async function forged() {
  G.setNow(NOW);
  const authKey = G.bytes(256, 256) as any;
  const isCreator = G.choose(2) === 0;
  const s = await side(isCreator, authKey);
  const len = 24 + 16 * G.int(1, 1 << 12);
  const data = G.bytes(len, len) as any;
  data.set((await sha1(authKey)).subarray(12, 20));
  const plain = await opened(authKey, data, !isCreator);
  const mk = await msgKeyOf(authKey, plain, isCreator ? 8 : 0);
  const at = G.int(0, 15);
  G.assume(data[8 + at] !== mk[at]);
  await refuses(s, data, "a message whose key is not that of its text is refused");
}
export async function reflected() {
  G.setNow(NOW);
  const authKey = G.bytes(256, 256) as any;
  const isCreator = G.choose(2) === 0;
  const s = await side(isCreator, authKey);
  // (the parts of the key that the two directions use are different)
  for (const at of [0, 40, 88]) G.assume(authKey[at] !== authKey[at + 8]);
  const data = await encrypted(authKey, textLayer("hello", isCreator ? 0 : 1, isCreator ? 1 : 0), isCreator);
  const plain = await opened(authKey, data, !isCreator);
  const mk = await msgKeyOf(authKey, plain, isCreator ? 8 : 0);
  const at = 0; // (any byte, see above)
  G.assume(data[8 + at] !== mk[at]);
  await refuses(s, data, "a message made for the other direction is refused");
}
export async function wrong_key() {
  G.setNow(NOW);
  const authKey = G.bytes(256, 256) as any;
  const s = await side(G.choose(2) === 0, authKey);
  const data = G.bytes(0, 4096) as any;
  const id = (await sha1(authKey)).subarray(12, 20);
  const how = G.choose(2);
  if (how === 0) {
    const at = G.int(0, 7);
    G.assume(data.length >= 8 && data[at] !== id[at]);
  } else {
    if (data.length >= 8) data.set(id);
    G.assume(data.length < 40 || (data.length - 24) % 16 !== 0);
  }
  await refuses(s, data, "a message that names another key, or is not whole, is refused");
}
// a message that was sealed with the key but does not hold what it announces
export async function malformed() {
  G.setNow(NOW);
  const authKey = G.bytes(256, 256) as any;
  const isCreator = G.choose(2) === 0;
  const s = await side(isCreator, authKey);
  const len = 16 * G.int(1, 80);
  const plain = G.bytes(len, len) as any;
  const how = G.choose(4);
  // announced: more than there is, up to 11 bytes of padding, more than 1024, or a negative length
  const padding = how === 0 ? G.int(-1000000, -1) : how === 1 ? G.int(0, Math.min(11, len - 4)) : G.int(1025, 1276);
  const length = how === 3 ? G.int(2 ** 31, 2 ** 32 - 1) : len - 4 - padding;
  if (length < 0) return;
  plain.set(le(BigInt(length), 4));
  await refuses(s, await seal(authKey, plain, isCreator ? 8 : 0), "a message without its padding is refused");
}
// files: the key the file is encrypted with is the one in the message
const SEND = ["sendSecretDocument", "sendSecretAudio", "sendSecretVideo", "sendSecretVoice", "sendSecretAnimation", "sendSecretPhoto", "sendSecretVideoNote"];
export async function files() {
  G.setNow(NOW);
  const authKey = G.bytes(256, 256) as any;
  const isCreator = G.choose(2) === 0;
  const s = await side(isCreator, authKey);
  let key: any, iv: any;
  const size = G.int(1, 1000000000);
  const up = { id: G.big(-(1n << 63n), (1n << 63n) - 1n) };
  const t = new Side(s.self, s.store, (_file: any, _params: any, _check: any, isEncrypted: any, k: any) => {
    key = k.key.slice();
    iv = k.iv.slice();
    G.assert(isEncrypted === true && key.length === 32 && iv.length === 32, "the file is encrypted");
    return Promise.resolve({ inputEncryptedFile: { _: "inputEncryptedFileUploaded", id: up.id, parts: 1, md5_checksum: "", key_fingerprint: 3 }, fileSize: size });
  });
  await t.load();
  const method = SEND[G.choose(SEND.length)];
  await t.manager[method](CHAT, new Uint8Array(1), { caption: "look" });
  const f = t.sent[0];
  G.assert(t.sent.length === 1 && f._ === "messages.sendEncryptedFile" && f.file.id === up.id, "the message is sent with its file");
  const plain = await opened(authKey, f.data, isCreator);
  const layer: any = await SecretChats.deserializeType(X, plain.subarray(4, 4 + Number(u(plain, 0, 4))));
  G.assert(layer.message.message === "look" && layer.message.random_id === f.random_id, "and its caption");
  const media = layer.message.media;
  G.assert(G.eqBytes(media.key, key) && G.eqBytes(media.iv, iv) && BigInt(media.size) === BigInt(size), "the key, vector and size in the message are those of the file");
}
// the padding the protocol asks for, and any other
export async function padding() {
  G.setNow(NOW);
  const authKey = G.bytes(256, 256) as any;
  const isCreator = G.choose(2) === 0;
  const s = await side(isCreator, authKey);
  const text = "x".repeat([3, 7, 11, 15][G.choose(4)]);
  const body = SecretChats.serializeObject(textLayer(text, isCreator ? 0 : 1, isCreator ? 1 : 0) as any);
  const padding = (16 - (4 + body.length) % 16) % 16 + 16 * G.choose(70);
  const data = await seal(authKey, concat([le(BigInt(body.length), 4), body, new Uint8Array(padding)]), isCreator ? 8 : 0);
  if (padding < 12 || padding > 1024) await refuses(s, data, "a message with too little or too much padding is refused");
  else {
    await s.deliver(data);
    G.assert(s.received.length === 1 && s.received[0].secretMessage.text === text, "and one with enough is not");
  }
}
