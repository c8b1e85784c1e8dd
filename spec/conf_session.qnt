/// C21: sessions recorded from the code are behaviours of session_rules, and what
/// is read is a function of what the spec says it is a function of.
/// A record: [number of events, events..]; an event is
///   [tag, what the nine buffers hold afterwards (-1: nothing known), ..] with
///   1 Make obj uc alg eng refr tb yb xb served;  2 Overwrite cls buf content;  3 Read obj acc arg kind m values..;
///   4 Scribble obj;  5 Refused flaw raised;  6 a read in a process of its own: uc alg eng refr t y x acc arg kind m values..
/// kind: 0 numbers 1 times
module conf_session {
  import conf_reads.* from "./conf_reads"

  import fixed.* from "./fixed"
  import trace.* from "./trace"
  import session_rules.* from "./session_rules"

  pure def held(v: Verdict, k: int, r: List[int], p: int, s: Session): Verdict =
    v.clause("arguments are not modified", [k], range(0, 9).foldl(true, (ok, j) => ok and r[p + 1 + j] == s.bufs[j / 3][j % 3]), r[p], 0)

  pure def judge(rec: int): Verdict = {
    pure val r = unpack(rec)
    range(0, r[0]).foldl({ s: START, p: 1, table: Map(), v: PASS }, (st, k) => {
      pure val p = st.p
      pure val o = p + 10
      pure val tag = r[p]
      if (tag == 1) {
        pure val s1 = apply(st.s, Make({ obj: r[o], uc: r[o + 1], alg: r[o + 2], eng: r[o + 3], refr: r[o + 4],
                                         tb: r[o + 5], yb: r[o + 6], xb: r[o + 7] }))
        { ...st, s: s1, p: o + 9, v: st.v.held(k, r, p, s1).clause("served", [k], r[o + 8] == 1, r[o + 8], 1) }
      }
      else if (tag == 2) {
        pure val s1 = apply(st.s, Overwrite({ cls: r[o], buf: r[o + 1], content: r[o + 2] }))
        { ...st, s: s1, p: o + 3, v: st.v.held(k, r, p, s1) }
      }
      else if (tag == 3) {
        pure val c = st.s.objs[r[o]]
        looked({ ...st, v: st.v.held(k, r, p, st.s) }, k, key(c, r[o + 1], r[o + 2]), r, o + 3)
      }
      else if (tag == 4) {
        pure val s1 = apply(st.s, Scribble({ obj: r[o] }))
        { ...st, s: s1, p: o + 1, v: st.v.held(k, r, p, s1) }
      }
      else if (tag == 5)
        { ...st, p: o + 2, v: st.v.held(k, r, p, st.s).clause("raises", [k], r[o + 1] == 1, r[o + 1], 1) }
      else
        looked(st, k, key({ uc: r[o], alg: r[o + 1], eng: r[o + 2], refr: r[o + 3], t: r[o + 4], y: r[o + 5], x: r[o + 6] },
                          r[o + 7], r[o + 8]), r, o + 9)
    }).v
  }
}
