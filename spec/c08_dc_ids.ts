// C08: data centre names and wire identifiers correspond one to one.
import * as G from "./ghost.ts";
import { getDc, getDcId, getDcIps, getRawDcId } from "file:///repo/transport/1_transport_provider.ts";

const DCS = ["1", "2", "3", "4", "5", "1-test", "2-test", "3-test"] as const;
export function dc_roundtrip() {
  const dc = DCS[G.choose(8)];
  const media = G.bool();
  const id = getDcId(dc, media);
  G.assert(getDc(id) === dc, "the data centre is recovered from its identifier");
  G.assert((id < 0) === media, "media connections have negative identifiers");
  G.assert(Math.abs(id) % 10000 === Number(dc[0]) && (Math.abs(id) >= 10000) === dc.endsWith("-test"), "test data centres are offset by 10000");
  G.assert(getRawDcId(dc) === Number(dc[0]), "the raw identifier is the data centre number");
}
export function dc_ids_distinct() {
  const a = DCS[G.choose(8)], b = DCS[G.choose(8)];
  const m = G.bool(), n = G.bool();
  if (a !== b || m !== n) G.assert(getDcId(a, m) !== getDcId(b, n), "different endpoints have different identifiers");
}
export function addresses_exist() {
  const dc = DCS[G.choose(8)];
  const v = G.bool() ? "ipv4" : "ipv6";
  const other = DCS[G.choose(8)];
  const ips: string[] = getDcIps(dc, v);
  G.assert(ips.length >= 1, "every data centre has an address");
  if (other !== dc) {
    const o: string[] = getDcIps(other, v);
    let shared = false;
    for (const x of ips) for (const y of o) shared = shared || x === y;
    G.assert(!shared, "no two data centres share an address");
  }
}
