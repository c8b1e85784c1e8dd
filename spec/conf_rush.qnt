/// C37: what loads at once gave.
/// Record: [n, (key; was it refused by the network; 0 given 1 raised; rows; right rows?) x n, m, (key; requests of a later load; 0 given 1 raised; rows;
///   right rows?) x m, files that are torn]
module conf_rush {
  import fixed.* from "./fixed"
  import trace.* from "./trace"
  pure def judge(rec: int): Verdict = {
    pure val r = unpack(rec)
    pure val n = r[0]
    pure val m = r[1 + 5 * n]
    pure val o = 2 + 5 * n
    pure val v1 = range(0, n).foldl(PASS, (v, k) => {
      pure val p = 1 + 5 * k
      pure val w = v.clause("given, whoever else loads", [k], (r[p + 2] == 0) == (r[p + 1] == 0), r[p + 2], r[p + 1])
      if (r[p + 2] != 0) w else w.clause("all of its year, once", [k], r[p + 3] == 36 and r[p + 4] == 1, r[p + 3], 36)
    })
    pure val v2 = range(0, m).foldl(v1, (v, k) => {
      pure val p = o + 5 * k
      pure val had = range(0, n).foldl(false, (b, j) => b or (r[1 + 5 * j] == r[p] and r[3 + 5 * j] == 0))
      pure val w = v.clause("given afterwards", [k], r[p + 2] == 0 and r[p + 3] == 36 and r[p + 4] == 1, r[p + 3], 36)
      if (had) w.clause("what is kept is not requested", [k], r[p + 1] == 0, r[p + 1], 0) else w
    })
    v2.clause("no torn file", [], r[o + 5 * m] == 0, r[o + 5 * m], 0)
  }
}
