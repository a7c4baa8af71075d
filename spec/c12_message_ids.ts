// C12: message identifiers are strictly increasing multiples of four whatever the clock does; sequence numbers count content-related messages.
import * as G from "./ghost.ts";
import { SessionState } from "file:///repo/session/0_session_state.ts";

// every history: any number of messages, the clock and the time difference moving in any direction between them
export function identifiers() {
  const s = new SessionState();
  s.timeDifference = G.int(-2000000000, 2000000000);
  let last = s.nextMessageId();
  G.assert(last % 4n === 0n, "the first identifier is a multiple of four");
  const n = G.int(0, 60);
  for (let i = 0; i < n; i++) {
    s.timeDifference = G.int(-2000000000, 2000000000);
    const id = s.nextMessageId();
    G.assert(id > last, "identifiers strictly increase");
    G.assert(id % 4n === 0n, "identifiers are multiples of four");
    last = id;
  }
}
// looking ahead changes nothing
export function previews() {
  const s = new SessionState();
  s.timeDifference = G.int(-2000000000, 2000000000);
  let last = s.nextMessageId();
  const n = G.int(0, 60);
  for (let i = 0; i < n; i++) {
    s.timeDifference = G.int(-2000000000, 2000000000);
    const p = s.previewNextMessageId();
    G.assert(p > last && p % 4n === 0n, "a previewed identifier is one that could be given");
    const id = s.nextMessageId();
    G.assert(id > last, "previewing does not consume identifiers");
    last = id;
  }
}
// an identifier carries the (adjusted) time in its upper half
export function identifiers_carry_time() {
  const s = new SessionState();
  const td = G.int(0, 2000000000);
  s.timeDifference = td;
  const now = G.int(1000000001000, 4398046511104);
  G.setNow(now);
  const sec = BigInt(Math.floor(now / 1000) + td);
  const id = s.nextMessageId();
  G.assert(id >> 32n === sec, "the upper half is the adjusted time in seconds");
  const back = G.int(1, 1000000000);
  s.timeDifference = td - back;
  s.reset();
  G.assert(s.nextMessageId() >> 32n === sec - BigInt(back), "a reset session starts again from the time");
}
export function sequence_numbers() {
  const s = new SessionState();
  let content = 0;
  const n = G.int(0, 60);
  for (let i = 0; i < n; i++) {
    const related = G.symBool();
    const no = s.nextSeqNo(related);
    if (related) {
      G.assert(no === 2 * content + 1, "a content-related message has an odd number counting those before it");
      content++;
    } else G.assert(no === 2 * content, "any other message has the even number counting those before it");
  }
  s.reset();
  G.assert(s.nextSeqNo(true) === 1, "a reset session counts from the start");
}
