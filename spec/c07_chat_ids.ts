// C07: chat identifiers and peers correspond one to one.
import * as G from "./ghost.ts";
import { chatIdToPeer, chatIdToPeerId, getChannelChatId, getChatIdPeerType, peerToChatId } from "file:///repo/tl/2_telegram.ts";

// the ranges Telegram assigns
const MAX_USER = (1n << 40n) - 1n, MAX_CHAT = 999_999_999_999n, MAX_CHANNEL = 997_852_516_352n;

function peerOf(kind: number, id: bigint): any {
  return kind === 0 ? { _: "peerUser", user_id: id } : kind === 1 ? { _: "peerChat", chat_id: id } : { _: "peerChannel", channel_id: id };
}
function anyPeer() {
  const kind = G.choose(3);
  const id = G.big(1n, kind === 0 ? MAX_USER : kind === 1 ? MAX_CHAT : MAX_CHANNEL);
  return { kind, id, peer: peerOf(kind, id) };
}
export function peer_roundtrip() {
  const { kind, id, peer } = anyPeer();
  const chatId = peerToChatId(peer);
  const back: any = chatIdToPeer(chatId);
  G.assert(back._ === peer._, "the peer kind survives");
  G.assert((kind === 0 ? back.user_id : kind === 1 ? back.chat_id : back.channel_id) === id, "the peer id survives");
  G.assert(chatIdToPeerId(chatId) === id, "the bare id is recovered");
  G.assert(getChatIdPeerType(chatId) === ["user", "chat", "channel"][kind], "the kind is recognised from the id alone");
}
export function all_peer_forms_agree() {
  const { kind, id } = anyPeer();
  const h = G.big(-(1n << 63n), (1n << 63n) - 1n);
  const expected = peerToChatId(peerOf(kind, id));
  const f = G.choose(4);
  let p: any;
  if (kind === 0) p = [{ _: "inputPeerUser", user_id: id, access_hash: h }, { _: "user", id, access_hash: h }, { user_id: id }, { _: "inputPeerUserFromMessage", peer: { _: "inputPeerSelf" }, msg_id: 1, user_id: id }][f];
  else if (kind === 1) p = [{ _: "inputPeerChat", chat_id: id }, { _: "chat", id }, { chat_id: id }, { _: "chatForbidden", id }][f];
  else p = [{ _: "inputPeerChannel", channel_id: id, access_hash: h }, { _: "channel", id, access_hash: h }, { channel_id: id }, { _: "channelForbidden", id, access_hash: h }][f];
  G.assert(peerToChatId(p) === expected, "every form of the same peer has the same chat id");
}
export function ids_distinct() {
  const a = anyPeer(), b = anyPeer();
  if (peerToChatId(a.peer) === peerToChatId(b.peer)) G.assert(a.kind === b.kind && a.id === b.id, "different peers have different chat ids");
}
export function chat_id_roundtrip() {
  const c = G.int(-1_000_000_000_000 - Number(MAX_CHANNEL), Number(MAX_USER));
  G.assume(c !== 0 && c !== -1_000_000_000_000);
  const peer = chatIdToPeer(c);
  G.assert(peerToChatId(peer) === c, "a chat id survives conversion to a peer");
  const t = getChatIdPeerType(c);
  G.assert(t === (c > 0 ? "user" : c > -1_000_000_000_000 ? "chat" : "channel"), "the ranges are the assigned ones");
  if (t === "channel") G.assert(getChannelChatId(chatIdToPeerId(c)) === c, "channel ids convert as well");
}
