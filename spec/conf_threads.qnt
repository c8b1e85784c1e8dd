/// C22: what threads obtained, in the order in which it happened, against what is
/// obtained alone. A record: [number of events, events..]; an event is
///   1 th op: an operation begins;   2 th op served: a call is over
///   3 th op uc alg eng refr t y x acc arg kind m values..: a read is over
///   6 uc alg eng refr t y x acc arg kind m values..: a read in a process of its own
module conf_threads {
  import fixed.* from "./fixed"
  import trace.* from "./trace"
  import session_rules.* from "./session_rules"
  import conf_reads.* from "./conf_reads"

  /// busy: which operation each thread is in (-1: none); done: how many it has finished
  type Ts = { busy: List[int], done: List[int], st: St }

  pure def over(ts: Ts, k: int, th: int, op: int): Ts =
    { ...ts, busy: ts.busy.replaceAt(th, -1), done: ts.done.replaceAt(th, ts.done[th] + 1),
      st: { ...ts.st, v: ts.st.v.clause("program order", [k], ts.busy[th] == op and ts.done[th] == op, op, ts.done[th]) } }

  pure def judge(rec: int): Verdict = {
    pure val r = unpack(rec)
    pure val end = range(0, r[0]).foldl({ busy: [-1, -1, -1], done: [0, 0, 0], st: { s: START, p: 1, table: Map(), v: PASS } }, (ts, k) => {
      pure val p = ts.st.p
      pure val o = p + 1
      pure def ky(at: int): List[int] = key({ uc: r[at], alg: r[at + 1], eng: r[at + 2], refr: r[at + 3], t: r[at + 4], y: r[at + 5],
                                              x: r[at + 6] }, r[at + 7], r[at + 8])
      if (r[p] == 1)
        { ...ts, busy: ts.busy.replaceAt(r[o], r[o + 1]), st: { ...ts.st, p: o + 2,
            v: ts.st.v.clause("program order", [k], ts.busy[r[o]] == -1 and ts.done[r[o]] == r[o + 1], r[o + 1], ts.done[r[o]]) } }
      else if (r[p] == 2) {
        pure val t1 = over(ts, k, r[o], r[o + 1])
        { ...t1, st: { ...t1.st, p: o + 3, v: t1.st.v.clause("served", [k], r[o + 2] == 1, r[o + 2], 1) } }
      }
      else if (r[p] == 3) {
        pure val t1 = over(ts, k, r[o], r[o + 1])
        { ...t1, st: looked(t1.st, k, ky(o + 2), r, o + 11) }
      }
      else { ...ts, st: looked(ts.st, k, ky(o), r, o + 9) }
    })
    end.st.v.clause("all threads finish", [r[0] - 1], end.busy == [-1, -1, -1], 0, 0)
  }
}
