/// Tables of ephemerides for the benchmark (C32): a reference, and algorithms that differ from it
module bench {
  import fixed.* from "./fixed"
  import bench_rules.* from "./bench_rules"
  /// zenith, azimuth (degrees, -180 to 180) and eccentricity correction
  type Row = { zen: int, az: int, ecf: int }
  var ref: List[Row]
  var algs: List[List[Row]]
  pure def draw(u: int, k: int, n: int): int = ((u + 7919 * k + 104729) * 1103515245 + (k * k + 12345) * 2654435761) / 65536 % n
  pure def within(az: int): int = fmod(az + 180 * S, 360 * S) - 180 * S
  /// unit: 1e-9
  pure val U: int = 1000000000
  action initBench = all { ref' = [], algs' = [] }
  action table = {
    nondet n = 2.to(24).oneOf()
    nondet m = 1.to(4).oneOf()
    nondet u = 0.to(1000000000).oneOf()
    nondet day = 0.to(3).oneOf()
    nondet scale = Set(0, 1000, 1000000, 1000000000, 20000000000).oneOf()
    val r = range(0, n).foldl([], (l, k) => l.append({
      zen: if (k < 2 or draw(u, k, 4) < day) draw(u, 10 + k, 89900000000) * U else draw(u, 10 + k, 178000000000) * U + S,
      az: if (draw(u, 20 + k, 3) > 0) within(180 * S + (draw(u, 30 + k, 2000000000) - 1000000000) * U) else (draw(u, 40 + k, 360000000000) - 180000000000) * U,
      ecf: (966000000 + draw(u, 50 + k, 68000000)) * U }))
    val a = range(0, m).foldl([], (l, j) => l.append(r.indices().fold([], (x, k) => {
      def e(i: int, most: int): int = if (most == 0) 0 else draw(u, 100 + 31 * j + 7 * k + i, 2 * most) - most
      x.append({ zen: clamp(r[k].zen + e(0, scale) * U, 0, 180 * S), az: within(r[k].az + e(1, scale) * U + (if (j == 1) scale * U / 3 else 0)),
                 ecf: r[k].ecf + e(2, scale / 1000) * U })
    })))
    all { ref' = r, algs' = a }
  }
  /// the scores of the azimuth are those of errors of 27 degrees at most, and coherent
  val coherent = algs.indices().forall(j => {
    val e = ref.indices().fold([], (l, k) => l.append(around(algs[j][k].az, ref[k].az)))
    val s = scores(e)
    and {
      length(algs[j]) == length(ref),
      e.indices().forall(k => iabs(e[k]) <= 27 * S),
      iabs(s.mbe) <= s.mae + 1, s.mae <= s.rmse + 1, s.p66 <= s.p90,
      // mean square = square of the mean + variance
      iabs(s.rmse * s.rmse - s.mbe * s.mbe - s.std * s.std * (length(e) - 1) / length(e)) <= 100 * S
    }
  })
}
