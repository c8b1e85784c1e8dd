/// C25: what was requested, stored and read. Records:
///   [1, start, stop, step, lon6, lat6, elevation; outcome 0 a file 1 ValueError 2 else; requests sent; and if one was sent:
///    start, stop, step, lon6, lat6, elevation in it; n, whether each other option is right..; stored as received?]
///   [2, n, (t, az, el, r, mark) x n; outcome 0 a table 2 an exception; rows, in UTC?, (t, az, zenith, ecf) x rows]
///   [3, n, (year, site, failAt; outcome 0 a table 2 an exception; requests sent; rows, first, last, every 12 minutes?,
///    site as asked?, in UTC?, m, (t, az, zenith, ecf) x m) x n]
///   [4, outcome 0 a file 2 an exception; is there a file?]: of a request that is answered with an error
module conf_jpl {
  import fixed.* from "./fixed"
  import civil.* from "./civil"
  import trace.* from "./trace"
  import jpl_rules.* from "./jpl_rules"

  pure val TOL: int = 1000000         // 1e-12
  pure def sameRow(v: Verdict, at: List[int], r: List[int], p: int, w: Row): Verdict =
    v.clause("time of a row", at, r[p] == w.t, r[p], w.t)
     .close("azimuth", at, r[p + 1], w.az, TOL)
     .close("zenith", at, r[p + 2], w.zen, TOL)
     .close("ecf", at, r[p + 3], w.ecf, TOL)

  pure def judgeAsk(r: List[int]): Verdict = {
    pure val a = { start: r[1], stop: r[2], step: r[3], lon6: r[4], lat6: r[5], elev: r[6] }
    pure val v = PASS.clause("allowed or refused", [lines(a)], (r[7] == 0) == allowed(a) and (r[7] != 0 implies r[7] == 1), r[7], lines(a))
      .clause("requests sent", [lines(a)], r[8] == (if (allowed(a)) 1 else 0), r[8], 0)
    if (r[8] != 1) v else
      range(0, 6).foldl(v, (acc, k) => acc.clause("site, period and step", [k], r[9 + k] == r[1 + k], r[9 + k], r[1 + k]))
        .clause("options", [], range(0, r[15]).foldl(true, (ok, k) => ok and r[16 + k] == 1), 0, 1)
        .clause("stored as received", [], r[16 + r[15]] == 1, r[16 + r[15]], 1)
  }

  pure def judgeReply(r: List[int]): Verdict = {
    pure val n = r[1]
    pure val p = 2 + 5 * n
    pure val v = PASS.clause("read", [], r[p] == 0 and r[p + 1] == n and r[p + 2] == 1, r[p + 1], n)
    if (r[p] != 0 or r[p + 1] != n) v else
      range(0, n).foldl(v, (acc, k) =>
        acc.sameRow([k], r, p + 3 + 4 * k, rowOf({ t: r[2 + 5 * k], az: r[3 + 5 * k], el: r[4 + 5 * k], r: r[5 + 5 * k], mark: r[6 + 5 * k] })))
  }

  /// what the stand-in for Horizons says of an instant at a site
  pure def said(t: int, site: int): Line = {
    pure val m = t / 60
    { t: t, az: (m * 123457 + site * 1000003) % 360000000, el: (m * 7919 + site * 17) % 180000001 - 90000000,
      r: 983000000000 + (m * 104729) % 34000000000, mark: 0 }
  }
  pure def judgeLoads(r: List[int]): Verdict = range(0, r[1]).foldl({ v: PASS, s: EMPTY, p: 2 }, (a, k) => {
    pure val p = a.p
    pure val q = { year: r[p], site: r[p + 1] }
    pure val want = gives(a.s, q, r[p + 2])
    pure val m = r[p + 11]
    pure val y0 = unixOf(q.year, 1, 1, 0, 0, 0)
    pure val v1 = a.v.clause("given unless the network fails", [k], (r[p + 3] == 0) == want, r[p + 3], if (want) 0 else 2)
      .clause("what is kept is not requested", [k], a.s.whole.contains(q) implies r[p + 4] == 0, r[p + 4], 0)
    pure val v2 = if (r[p + 3] != 0) v1 else
      v1.clause("a row every 12 minutes of the year", [k], r[p + 5] == rowsOf(q.year) and r[p + 6] == y0 and r[p + 8] == 1
            and r[p + 7] == y0 + 720 * (rowsOf(q.year) - 1), r[p + 5], rowsOf(q.year))
        .clause("at the site, in UTC", [k], r[p + 9] == 1 and r[p + 10] == 1, r[p + 9], 1)
    pure val v3 = range(0, m).foldl(v2, (v, j) => v.sameRow([k, j], r, p + 12 + 4 * j, rowOf(said(r[p + 12 + 4 * j], q.site))))
    { v: v3, s: load(a.s, q, r[p + 2]), p: p + 12 + 4 * m }
  }).v

  pure def judgeError(r: List[int]): Verdict =
    PASS.clause("an error is not an ephemeris", [], r[1] != 0 and r[2] == 0, r[1], 2)

  pure def judge(rec: int): Verdict = {
    pure val r = unpack(rec)
    if (r[0] == 4) judgeError(r) else if (r[0] == 1) judgeAsk(r) else if (r[0] == 2) judgeReply(r) else judgeLoads(r)
  }
}
