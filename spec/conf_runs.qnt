/// C34: what runs of the benchmark asked and printed.
/// Record: [number of runs, of each: year, lat6, lon6, net; outcome 0 it ended 2 it raised; requests sent, and the last of them: start,
///   stop, step, lon6, lat6, elevation; nReply, (azimuth, elevation, distance) x nReply, the lines of that reply if any;
///   and if it ended: (times as in the reply?, latitude, longitude) x 5 of the packages asked; n,
///   (a, b, c) x n x METHODS, their answers; (rank, mbe, std, mae, rmse, p66, p90) x METHODS x 3 and x BRIGHT x 3, what it printed]
module conf_runs {
  import fixed.* from "./fixed"
  import civil.* from "./civil"
  import trace.* from "./trace"
  import bench_rules.* from "./bench_rules"
  import runs_rules.* from "./runs_rules"

  pure val NAMES: List[str] = ["mbe", "std", "mae", "rmse", "p66", "p90"]
  pure def rad_(d: int): int = rdiv(d * PI, 180 * S)
  pure def listed(s: Scores): List[int] = [s.mbe, s.std, s.mae, s.rmse, s.p66, s.p90]
  /// thousandths, rounded
  pure def shown(v: Verdict, at: List[int], r: List[int], p: int, want: List[int], slack: int): Verdict =
    range(0, 6).foldl(v.clause("printed", at, r[p] >= 0, r[p], 0), (w, i) =>
      w.close(NAMES[i], at, r[p + 1 + i], want[i], 600000000000000 + slack))
  /// best first, the unknown last
  pure def ranked(v: Verdict, at: List[int], r: List[int], p: int, n: int): Verdict =
    range(0, n).foldl(v, (w, i) => range(0, n).foldl(w, (x, j) => {
      pure val a = r[p + 7 * i + 4]
      pure val b = r[p + 7 * j + 4]
      if (r[p + 7 * i] < r[p + 7 * j] and i != j) x.clause("best first", at.append(i).append(j), not(isNum(b)) or (isNum(a) and a <= b), a, b) else x
    }))
  /// what the stand-in for the clear-sky model says
  pure def irradiance_(v: int, a: Angles): int =
    if (v == 0) 1000 * mul(cos_(rad_(a.zen)), a.ecf) else if (v == 1) 900 * a.ecf else 100 * cos_(rad_(a.zen))

  type Run = { v: Verdict, kept: Set[Site], ref: List[{ site: Site, rows: List[Angles] }], p: int }
  pure def judgeRun(x: Run, r: List[int], i: int): Run = {
    pure val p = x.p
    pure val k = { year: r[p], lat6: r[p + 1], lon6: r[p + 2] }
    pure val given = served(x.kept, k, r[p + 3])
    pure val v1 = x.v.clause("ends, unless the network fails", [i], (r[p + 4] == 0) == given, r[p + 4], if (given) 0 else 2)
      .clause("requests sent", [i], r[p + 5] == requests(x.kept, k), r[p + 5], requests(x.kept, k))
    pure val want = [unixOf(k.year, 1, 1, 0, 0, 0) / 60, unixOf(k.year + 1, 1, 1, 0, 0, 0) / 60, 12, k.lon6, k.lat6, 0]
    pure val v2 = if (r[p + 5] == 0) v1 else
      range(0, 6).foldl(v1, (v, j) => v.clause("year, site and step requested", [i, j], r[p + 6 + j] == want[j], r[p + 6 + j], want[j]))
    pure val n0 = r[p + 12]
    pure val mine = range(0, n0).foldl([], (l, j) => l.append(ofReply(r[p + 13 + 3 * j], r[p + 14 + 3 * j], r[p + 15 + 3 * j])))
    pure val ref = if (n0 > 0 and r[p + 3] == FINE) x.ref.append({ site: k, rows: mine }) else x.ref
    pure val q = p + 13 + 3 * n0
    if (r[p + 4] != 0) { v: v2, kept: keeps(x.kept, k, r[p + 3]), ref: ref, p: q }
    else {
      pure val v3 = range(0, 5).foldl(v2, (v, j) => v.clause("times asked", [i, j], r[q + 3 * j] == 1, r[q + 3 * j], 1)
        .close("latitude asked", [i, j], r[q + 3 * j + 1], k.lat6 * 1000000000000, 1000000)
        .close("longitude asked", [i, j], r[q + 3 * j + 2], k.lon6 * 1000000000000, 1000000))
      pure val n = r[q + 15]
      pure val a = q + 16
      pure val b = a + 3 * n * METHODS
      pure val c = b + 7 * 3 * METHODS
      pure val end = c + 7 * 3 * length(BRIGHT)
      pure val mine2 = ref.select(e => e.site == k)
      pure def answer(m: int, j: int): Angles = ofPackage(m, r[a + 3 * (n * m + j)], r[a + 3 * (n * m + j) + 1], r[a + 3 * (n * m + j) + 2])
      if (length(mine2) == 0 or length(mine2[0].rows) != n)
        { v: v3.clause("rows", [i], false, n, 0), kept: keeps(x.kept, k, r[p + 3]), ref: ref, p: end }
      else {
        pure val rows = mine2[0].rows
        pure val days = range(0, n).select(j => rows[j].zen < 90 * S)
        pure val v4 = range(0, METHODS).foldl(v3, (v, m) => range(0, 3).foldl(v, (w, j) => {
          pure val e = range(0, n).foldl([], (l, t) => l.append(printed(j,
            if (j == 0) answer(m, t).zen - rows[t].zen else if (j == 1) around(answer(m, t).az, rows[t].az) else answer(m, t).ecf - rows[t].ecf)))
          w.shown([i, j, m], r, b + 7 * (METHODS * j + m), if (knows(m, j)) listed(scores(e)) else [NAN, NAN, NAN, NAN, NAN, NAN], 50000000000000)
        }))
        pure val v5 = range(0, length(BRIGHT)).foldl(v4, (v, m) => range(0, 3).foldl(v, (w, j) => {
          pure val e = days.foldl([], (l, t) => l.append(irradiance_(j, answer(BRIGHT[m], t)) - irradiance_(j, rows[t])))
          w.shown([i, 3 + j, BRIGHT[m]], r, c + 7 * (length(BRIGHT) * j + m), listed(scores(e)), 50000000000000)
        }))
        pure val v6 = range(0, 3).foldl(v5, (v, j) => v.ranked([i, j], r, b + 7 * METHODS * j, METHODS)
          .ranked([i, 3 + j], r, c + 7 * length(BRIGHT) * j, length(BRIGHT)))
        { v: v6, kept: keeps(x.kept, k, r[p + 3]), ref: ref, p: end }
      }
    }
  }
  pure def judge(rec: int): Verdict = {
    pure val r = unpack(rec)
    range(0, r[0]).foldl({ v: PASS, kept: Set(), ref: [], p: 1 }, (x, i) => judgeRun(x, r, i)).v
  }
}
