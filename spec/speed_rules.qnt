/// How long the packages take (C38): what a test of speed runs, what figure it gives, and which tables are kept
module speed_rules {
  import fixed.* from "./fixed"

  /// methods: nrel, soltrack, psa, iqbal of the library (7); nrel_numba, nrel_numpy of pvlib; sg2; and two of pvlib that no table has
  pure val TABLES: int = 10
  pure val METHODS: int = 12
  pure val OURS: int = 7
  pure val SG2: int = 9
  pure def isOurs(m: int): bool = m < OURS
  pure def isPvlib(m: int): bool = m >= OURS and m != SG2
  /// grid: lats x lons; otherwise as many locations as lats (and lons)
  type Work = { times: int, grid: bool, lats: int, lons: int }
  pure def points(w: Work): int = if (w.grid) w.lats * w.lons else w.lats
  /// calls of the package that do the work once: pvlib goes place by place
  pure def callsOf(m: int, w: Work): int = if (isPvlib(m)) points(w) else 1
  /// what each of them is: (grid?, times, latitudes, longitudes)
  pure def callOf(m: int, w: Work): Work =
    if (isPvlib(m)) { times: w.times, grid: false, lats: 1, lons: 1 }
    else if (m == SG2) { times: w.times, grid: false, lats: points(w), lons: points(w) }
    else w

  /// the figure: time (us, 1e-18) per time and place, averaged over repetitions, and its deviation among them.
  /// cost: of run r, per time and place, in ns
  pure def laps(cost: List[int], repeats: int, number: int): List[int] =
    range(0, repeats).foldl([], (l, k) => l.append(range(0, number).foldl(0, (a, j) => a + cost[k * number + j]) * (S / 1000) / number))
  pure def mean(l: List[int]): int = l.foldl(0, (a, x) => a + x) / length(l)
  pure def deviation(l: List[int]): int = { pure val m = mean(l) sqrt_(l.foldl(0, (a, x) => a + sq(x - m)) / length(l)) }

  /// tables of every method at these, but what takes too long
  pure val TIMES: List[int] = [1, 10, 100, 1000, 10000, 50000, 100000, 500000]
  pure val PLACES: List[Work] = [
    { times: 0, grid: false, lats: 1, lons: 1 }, { times: 0, grid: false, lats: 10, lons: 10 }, { times: 0, grid: false, lats: 100, lons: 100 },
    { times: 0, grid: true, lats: 10, lons: 10 }, { times: 0, grid: true, lats: 50, lons: 50 }, { times: 0, grid: true, lats: 100, lons: 100 }]
  pure def spared(times: int, w: Work): bool = times > 1000 and w.grid and w.lats >= 50

  /// what the stand-ins make each method take in the load of a number, ps per time and place. Pvlib, that is called place by place,
  /// takes 200 ps more at each call
  pure def cost(load: int, m: int, t: int, c: int): int =
    1000000 + 100003 * load + 10007 * m + 1009 * t + (if (isPvlib(m)) 100 * (REPEATS * points(PLACES[c]) - 1) else 101 * c)
  pure val REPEATS: int = 3

  /// a load of the tables; one that fails while method m is measured; the loss of a table
  pure val LOAD: int = 0
  pure val FAIL: int = 1
  pure val LOSE: int = 2
  type Event = { kind: int, m: int, k: int }
  /// where each table is from: the number of the load that measured it, or 0
  pure def measured(kept: List[int], e: Event): Set[int] =
    kept.indices().filter(m => kept[m] == 0 and (e.kind == LOAD or (e.kind == FAIL and m <= e.m)))
  pure def ends(kept: List[int], e: Event): bool = e.kind == LOAD or (e.kind == FAIL and kept[e.m] != 0)
  pure def keep(kept: List[int], e: Event, now: int): List[int] =
    if (e.kind == LOSE) kept.replaceAt(e.m, 0)
    else range(0, length(kept)).foldl(kept, (l, m) =>
      if (kept[m] == 0 and (e.kind == LOAD or kept[e.m] != 0 or m < e.m)) l.replaceAt(m, now) else l)
}
