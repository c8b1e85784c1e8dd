/// C39: plots of the benchmark. Records:
///   [0, n, methods; (zen, az, ecf) x n of the reference; (method, (zen, az, ecf) x n) x methods; ranks, rank x ranks (as many as methods or none);
///    outcome 0 drawn 2 it raised; saved; samples in the title; panels, from the top: (method, curves, mean and deviation of that of the azimuth,
///    mean and deviation of that of the zenith) x panels]: accuracy. -1 for ranks: by the mean of the differences of the zenith
///   [1, figures, (method, times, place, us) x figures; outcome; saved; panels, from the left: (place, rows, columns; times x rows; method x columns;
///    seconds x rows x columns) x panels]: times
///   [2, which, outcome 0 drawn 1 of no such folder 2 it raised]: is it drawn for whoever asks?
module conf_plots {
  import fixed.* from "./fixed"
  import trace.* from "./trace"
  import bench_rules.* from "./bench_rules"
  import plots_rules.* from "./plots_rules"

  pure def drawn(r: List[int]): Verdict = {
    pure val n = r[1]
    pure val k = r[2]
    pure val w = 1 + 3 * n
    pure def zen(j: int, i: int): int = r[3 + 3 * n + w * j + 1 + 3 * i]
    pure def az(j: int, i: int): int = r[3 + 3 * n + w * j + 2 + 3 * i]
    pure val ms = range(0, k).foldl([], (l, j) => l.append(r[3 + 3 * n + w * j]))
    pure val diffs = range(0, k).foldl([], (l, j) => l.append({
      az: range(0, n).foldl([], (x, i) => x.append(around(az(j, i), r[3 + 3 * i + 1]))),
      zen: range(0, n).foldl([], (x, i) => x.append(zen(j, i) - r[3 + 3 * i])) }))
    pure val p = 3 + 3 * n + w * k
    pure val nr = r[p]
    pure val ranks =
      if (nr < 0) range(0, k).foldl([], (l, j) => l.append(total(sizes(diffs[j].zen))))
      else r.slice(p + 1, p + 1 + nr)
    pure val q = p + 1 + (if (nr < 0) 0 else nr)
    pure val want = panels(ms, ranks)
    pure val v = PASS.clause("drawn", [], r[q] == 0, r[q], 0)
    if (r[q] != 0) v else {
      pure val v1 = v.clause("saved", [], r[q + 1] == 1, r[q + 1], 1)
        .clause("samples in the title", [], r[q + 2] == n * length(want), r[q + 2], n * length(want))
        .clause("panels", [], r[q + 3] == length(want), r[q + 3], length(want))
      range(0, imin(length(want), r[q + 3])).foldl(v1, (x, i) => {
        pure val b = q + 4 + 6 * i
        pure val m = want[i]
        pure val y = x.clause("method of a panel, from the top", [i], r[b] == m, r[b], m)
        if (r[b] != m) y else {
          pure val d = diffs[ms.indices().fold(0, (a, j) => if (ms[j] == m) j else a)]
          pure val ca = curve(d.az)
          pure val cz = curve(d.zen)
          // the ends of the curves are cut at three widths of a kernel
          y.clause("curves", [m], r[b + 1] == 2, r[b + 1], 2)
           .close("azimuth: mean of the logarithms", [m], r[b + 2], ca.mean, S / 100)
           .close("azimuth: their deviation", [m], r[b + 3], ca.dev, S / 500 + ca.dev / 50)
           .close("zenith: mean of the logarithms", [m], r[b + 4], cz.mean, S / 100)
           .close("zenith: their deviation", [m], r[b + 5], cz.dev, S / 500 + cz.dev / 50)
        }
      })
    }
  }

  type At = { v: Verdict, p: int }
  pure def timed(r: List[int]): Verdict = {
    pure val n = r[1]
    pure val fs = range(0, n).foldl([], (l, i) => l.append({ m: r[2 + 4 * i], times: r[3 + 4 * i], place: r[4 + 4 * i], us: r[5 + 4 * i] }))
    pure val p = 2 + 4 * n
    pure val v = PASS.clause("drawn", [], r[p] == 0, r[p], 0)
    if (r[p] != 0) v else {
      pure val v1 = v.clause("saved", [], r[p + 1] == 1, r[p + 1], 1).clause("panels", [], r[p + 2] == 3, r[p + 2], 3)
      if (r[p + 2] != 3) v1 else
        range(0, 3).foldl({ v: v1, p: p + 3 }, (x, i) => {
          pure val here = fs.select(f => f.place == PLOTTED[i])
          pure val a = r[x.p + 1]
          pure val b = r[x.p + 2]
          pure val rows = r.slice(x.p + 3, x.p + 3 + a)
          pure val cols = r.slice(x.p + 3 + a, x.p + 3 + a + b)
          pure val c = x.p + 3 + a + b
          pure val wantRows = here.foldl(Set(), (s, f) => s.union(Set(f.times)))
          pure val wantCols = here.foldl(Set(), (s, f) => s.union(Set(f.m)))
          pure val y = x.v.clause("places of a panel", [i], r[x.p] == PLOTTED[i], r[x.p], PLOTTED[i])
            .clause("its times", [i], rows.foldl(Set(), (s, t) => s.union(Set(t))) == wantRows and a == size(wantRows), a, size(wantRows))
            .clause("its methods", [i], cols.foldl(Set(), (s, t) => s.union(Set(t))) == wantCols and b == size(wantCols), b, size(wantCols))
          pure val z = range(0, a).foldl(y, (acc, j) => range(0, b).foldl(acc, (g, k) => {
            pure val f = here.select(h => h.times == rows[j] and h.m == cols[k])
            pure val got = r[c + b * j + k]
            if (length(f) == 0) g.clause("an empty cell", [i, rows[j], cols[k]], got == NAN, got, NAN)
            else g.close("seconds", [i, rows[j], cols[k]], got, seconds(f[0]), S / 200 + seconds(f[0]) / 1000000000 + 1)
          }))
          { v: z, p: c + a * b }
        }).v
    }
  }

  pure def judge(n: int): Verdict = {
    pure val r = unpack(n)
    if (r[0] == 0) drawn(r) else if (r[0] == 1) timed(r)
    else PASS.clause("drawn for whoever asks", [r[1]], r[2] == 0, r[2], 0)
  }
}
