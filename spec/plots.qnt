/// Differences and times to plot (C39)
module plots {
  import fixed.* from "./fixed"
  import bench_rules.* from "./bench_rules"
  import plots_rules.* from "./plots_rules"
  type Row3 = { zen: int, az: int, ecf: int }
  type Accuracy = { ref: List[Row3], ms: List[int], tables: List[List[Row3]], ranks: List[int] }
  var acc: Accuracy
  var figs: List[Figure]
  pure def dice(u: int, k: int, n: int): int = ((u + 7919 * k + 104729) * 1103515245 + (k * k + 12345) * 2654435761) / 65536 % n
  pure def half(az: int): int = fmod(az + 180 * S, 360 * S) - 180 * S
  /// unit: 1e-12
  pure val P: int = 1000000
  pure val FEW: List[Row3] = []
  pure val NOTHINGS: List[List[Row3]] = []
  /// a number of about 10^-e, e from 0 to 5, of either sign
  pure def small(u: int, k: int, e: int): int =
    (200000000000 + dice(u, k, 700000000000)) / 10^e * P * (if (dice(u, k + 1, 2) == 0) 1 else -1)
  /// a permutation of 0..n-1
  pure def shuffle(u: int, n: int): List[int] =
    range(0, n).foldl([], (l, k) => { pure val p = dice(u, 900 + k, k + 1)  l.slice(0, p).append(k).concat(l.slice(p, k)) })
  pure def tables_(u: int, ref: List[Row3], ms: List[int]): List[List[Row3]] =
    ms.indices().fold(NOTHINGS, (l, j) => l.append(ref.indices().fold(FEW, (x, k) => x.append({
      // that of the method before, at times
      zen: if (j > 0 and dice(u, 800 + j, 3) == 0 and dice(u, 850 + k, 3) > 0) l[j - 1][k].zen else
        ref[k].zen + small(u, 100 + 97 * j + 13 * k, 1 + dice(u, 50 + j, 3) + dice(u, 61 * j + k, 2)),
      az: half(ref[k].az + small(u, 5000 + 97 * j + 13 * k, dice(u, 70 + j, 3) + dice(u, 67 * j + k, 3))),
      ecf: ref[k].ecf + small(u, 9000 + 97 * j + 13 * k, 4) }))))
  action draw = {
    nondet n = 3.to(14).oneOf()
    nondet k = 1.to(8).oneOf()
    nondet u = 0.to(1000000000).oneOf()
    nondet north = 0.to(3).oneOf()
    nondet sorted_ = 0.to(3).oneOf()
    nondet t = 1.to(4).oneOf()
    val ref = range(0, n).foldl(FEW, (l, i) => l.append({
      zen: 2 * S + dice(u, i, 176000000000) * (1000 * P),
      az: if (north > 1 or dice(u, 20 + i, 2) == 0) half(180 * S + (dice(u, 30 + i, 1000000) - 500000) * (1000000 * P)) else half(dice(u, 40 + i, 360000000) * (1000000 * P)),
      ecf: S }))
    val all_ = shuffle(u, METHODS)
    // one that is plotted, at least
    val some = all_.select(plotted)[0]
    val ms = [some].concat(all_.select(m => m != some).slice(0, k - 1))
    val ms2 = shuffle(u + 1, k).foldl([], (l, i) => l.append(ms[i]))
    val fs = range(0, k).foldl([], (l, j) => range(0, t).foldl(l, (l2, i) => range(0, 6).foldl(l2, (l3, p) =>
      if (dice(u, 300 + 31 * j + 7 * i + p, 5) == 0 and not(j == 0 and i == 0)) l3
      else l3.append({ m: shuffle(u + 2, 10)[j], times: [1, 10, 100, 1000, 10000, 50000, 100000, 500000][shuffle(u + 3, 8)[i]], place: p,
                       us: (1 + dice(u, 600 + 31 * j + 7 * i + p, 900000)) * 10^dice(u, 700 + i + j, 5) * 100000000 }))))
    all {
      acc' = { ref: ref, ms: ms2, tables: tables_(u, ref, ms2), ranks: if (sorted_ == 0) [] else shuffle(u + 4, k) },
      figs' = fs
    }
  }
  action init = draw
  action step = draw
  /// there is something to plot; differences are not nil and of a few degrees at most; panels are of the methods plotted, once each
  val plain = and {
    panels(acc.ms, acc.ranks).length() > 0,
    panels(acc.ms, acc.ranks).foldl(Set(), (s, m) => s.union(Set(m))) == acc.ms.select(plotted).foldl(Set(), (s, m) => s.union(Set(m))),
    panels(acc.ms, acc.ranks).length() == acc.ms.select(plotted).length(),
    acc.tables.indices().forall(j => acc.ref.indices().forall(k => {
      val d = around(acc.tables[j][k].az, acc.ref[k].az)
      iabs(d) > 0 and iabs(d) <= S and iabs(acc.tables[j][k].zen - acc.ref[k].zen) <= S })),
    figs.length() > 0
  }
}
