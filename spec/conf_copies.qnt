/// C33: lives of results and copies, recorded from the code, are behaviours of copies_rules.
/// A record: [number of events, events..]; an event is
///   1 Make obj uc alg eng refr zone t y x served;  2 Copy from to way copied;
///   3 Read obj acc arg kind m values..;  4 Scribble obj;  5 Drop obj;
///   6 the same read from a result made for it: uc alg eng refr zone t y x acc arg kind m values..
/// The last value of a read is a number of its labels (dimensions, coordinates, attributes, types).
module conf_copies {
  import fixed.* from "./fixed"
  import trace.* from "./trace"
  import copies_rules.* from "./copies_rules"

  type St = { s: Caller, p: int, table: List[int] -> List[int], v: Verdict }

  pure def same(kind: int, a: int, b: int): bool =
    if (isNum(a) and isNum(b)) iabs(a - b) <= (if (kind == 1) 0 else 1000 + iabs(a) / 1000000000000) else a == b

  pure def looked(st: St, k: int, ky: List[int], r: List[int], at: int): St = {
    pure val m = r[at + 1]
    pure val vals = r.slice(at, at + 2 + m)
    if (ky.in(st.table.keys())) {
      pure val w = st.table.get(ky)
      pure val ok = w[0] == vals[0] and length(w) == length(vals)
      pure val bad = if (not(ok)) 0 else range(2, length(vals)).foldl(-1, (b, j) => if (b < 0 and not(same(w[0], vals[j], w[j]))) j else b)
      pure val served = range(2, length(vals)).foldl(true, (b, j) => b and vals[j] != ERR)
      { ...st, v: st.v.clause("copies read as the original", [k], bad < 0, if (bad >= 0 and bad < length(vals)) vals[bad] else 0,
          if (bad >= 0 and bad < length(w)) w[bad] else 0).clause("read", [k], served, ERR, 0), p: at + 2 + m }
    } else { ...st, table: st.table.put(ky, vals), p: at + 2 + m }
  }

  pure def judge(rec: int): Verdict = {
    pure val r = unpack(rec)
    range(0, r[0]).foldl({ s: START, p: 1, table: Map(), v: PASS }, (st, k) => {
      pure val p = st.p
      pure val o = p + 1
      pure val tag = r[p]
      if (tag == 1) {
        pure val s1 = apply(st.s, Make({ obj: r[o], req: { uc: r[o + 1], alg: r[o + 2], eng: r[o + 3], refr: r[o + 4],
                                         zone: r[o + 5], t: r[o + 6], y: r[o + 7], x: r[o + 8] } }))
        { ...st, s: s1, p: o + 10, v: st.v.clause("served", [k], r[o + 9] == 1, r[o + 9], 1) }
      }
      else if (tag == 2)
        { ...st, s: apply(st.s, Copy({ from_: r[o], to_: r[o + 1], way: r[o + 2] })), p: o + 4,
          v: st.v.clause("copied", [k], r[o + 3] == 1, r[o + 3], 1) }
      else if (tag == 3)
        looked(st, k, key(st.s.objs[r[o]].req, r[o + 1], r[o + 2]), r, o + 3)
      else if (tag == 4)
        { ...st, s: apply(st.s, Scribble({ obj: r[o] })), p: o + 1 }
      else if (tag == 5)
        { ...st, s: apply(st.s, Drop({ obj: r[o] })), p: o + 1 }
      else
        looked(st, k, r.slice(o, o + 10), r, o + 10)
    }).v
  }
}
