/// C38: what tests of speed ran, and their figures.
/// Records: [0, m, times, grid, lats, lons, repeats, number; (cost of run, ns) x repeats x number; outcome; calls, kinds of calls,
///   (method, grid, times, lats, lons, refraction) of each kind; distinct places of all calls, instants, least and most latitude, longitude;
///   mean, deviation], the outcome 0 a figure 2 it raised; a test of speed
/// and [1, events; (kind, m, k, outcome; methods that ran (bits); if it ended: rows, columns, (figure, want if measured now) x ...) x events],
///   loads of the tables: figures by method, time and place. The figure is (the load that measured it, what it cost then)
module conf_speed {
  import fixed.* from "./fixed"
  import trace.* from "./trace"
  import speed_rules.* from "./speed_rules"

  pure def near(v: Verdict, name: str, at: List[int], got: int, want: int): Verdict = v.close(name, at, got, want, iabs(want) / 2000000)
  pure def asked(r: List[int]): Verdict = {
    pure val m = r[1]
    pure val w = { times: r[2], grid: r[3] == 1, lats: r[4], lons: r[5] }
    pure val runs = r[6] * r[7]
    pure val cost = r.slice(8, 8 + runs)
    pure val p = 8 + runs
    pure val k = r[p + 2]
    pure val c = callOf(m, w)
    pure val want = [m, if (c.grid) 1 else 0, c.times, c.lats, c.lons, 0]
    pure val v1 = PASS.clause("a figure", [m], r[p] == 0, r[p], 0)
    pure val q = p + 3 + 6 * k
    if (r[p] != 0) v1 else {
      pure val v2 = v1.clause("calls", [m], r[p + 1] == runs * callsOf(m, w), r[p + 1], runs * callsOf(m, w))
        .clause("one kind of call", [m], k == 1, k, 1)
      pure val names = ["method", "grid", "times", "latitudes", "longitudes", "refraction"]
      pure val v3 = range(0, k).foldl(v2, (v, i) => range(0, 6).foldl(v, (x, j) =>
        if (m == SG2 and j == 5) x else x.clause(names[j], [m, i], r[p + 3 + 6 * i + j] == want[j], r[p + 3 + 6 * i + j], want[j])))
      pure val l = laps(cost, r[6], r[7])
      v3.clause("places", [m], r[q] == points(w), r[q], points(w))
        .clause("instants", [m], r[q + 1] == w.times, r[q + 1], w.times)
        .clause("latitude", [m], -90 * S <= r[q + 2] and r[q + 3] <= 90 * S, r[q + 2], r[q + 3])
        .clause("longitude", [m], -180 * S <= r[q + 4] and r[q + 5] < 180 * S, r[q + 4], r[q + 5])
        .near("mean", [m], r[q + 6], mean(l))
        .close("deviation", [m], r[q + 7], deviation(l), 2000000000 + mean(l) / 100000000)
    }
  }
  type At = { v: Verdict, kept: List[int], p: int }
  pure def judgeEvent(x: At, r: List[int], i: int): At = {
    pure val e = { kind: r[x.p], m: r[x.p + 1], k: r[x.p + 2] }
    pure val now = i + 1
    pure val after = keep(x.kept, e, now)
    pure val ok = ends(x.kept, e)
    if (e.kind == LOSE) { ...x, kept: after, p: x.p + 3 }
    else {
      pure val v1 = x.v.clause("ends, unless a method fails", [i], (r[x.p + 3] == 0) == ok, r[x.p + 3], if (ok) 0 else 2)
      pure val ran = measured(x.kept, e)
      pure val v2 = range(0, TABLES).foldl(v1, (v, m) => {
        pure val did = r[x.p + 4] / (2^m) % 2 == 1
        pure val must = if (ok) x.kept[m] == 0 else ran.contains(m)
        v.clause("what is kept is not measured again, the rest is", [i, m], did == must, if (did) 1 else 0, if (must) 1 else 0)
      })
      if (r[x.p + 3] != 0 or not(ok)) { v: v2, kept: after, p: x.p + 5 + (if (r[x.p + 3] == 0) r[x.p + 5] + 1 else 0) }
      else {
        pure val q = x.p + 6
        pure val cols = length(PLACES)
        pure val v3 = range(0, TABLES).foldl(v2, (v, m) => range(0, length(TIMES)).foldl(v, (w, t) => range(0, cols).foldl(w, (y, c) => {
          pure val j = q + (m * length(TIMES) + t) * cols + c
          y.near("figure", [i, m, t, c], r[j], if (spared(TIMES[t], PLACES[c])) NAN else cost(after[m], m, t, c) * (S / 1000000))
        })))
        { v: v3, kept: after, p: q + r[x.p + 5] }
      }
    }
  }
  pure def judge(rec: int): Verdict = {
    pure val r = unpack(rec)
    if (r[0] == 0) asked(r)
    else range(0, r[1]).foldl({ v: PASS, kept: range(0, TABLES).foldl([], (l, m) => l.append(0)), p: 2 }, (x, i) => judgeEvent(x, r, i)).v
  }
}
