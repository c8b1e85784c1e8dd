/// C32: what the benchmark says.
/// Record: [kind, nRows, nAlgs, rows of the reference (zenith, azimuth, ecf) x nRows, the same x nAlgs,
///   (6 scores x 3 variables) x nAlgs]
/// kind 0: of the ephemerides (zenith, azimuth, ecf); 1: of the irradiances by day that a stand-in for the clear-sky model makes
///   of them: global 1000 cos(zenith) ecf, direct 900 ecf, diffuse 100 cos(zenith);
/// kind 3: the table of the soltrack package: [3, n, outcome; rows, at these instants?, longitude and latitude asked for, and those to ask for,
///   in degrees?, from north?, refraction?, as asked?, (zenith, azimuth, ecf; altitude, azimuth, distance of the package) x n]
/// kind 2: the table of the library: (zenith, azimuth, ecf, as sites gives them) x nRows
module conf_bench {
  import fixed.* from "./fixed"
  import trace.* from "./trace"
  import bench_rules.* from "./bench_rules"
  pure def rad_(d: int): int = rdiv(d * PI, 180 * S)
  pure val NAMES: List[str] = ["mbe", "std", "mae", "rmse", "p66", "p90"]

  pure def irradiance(v: int, zen: int, ecf: int): int =
    if (v == 0) 1000 * mul(cos_(rad_(zen)), ecf) else if (v == 1) 900 * ecf else 100 * cos_(rad_(zen))

  pure def judge(rec: int): Verdict = {
    pure val r = unpack(rec)
    pure val n = r[1]
    pure val m = r[2]
    if (r[0] == 2) range(0, n).foldl(PASS.clause("made", [], m == 1, m, 1), (v, k) =>
      range(0, 3).foldl(v, (w, j) => w.close("table", [k, j], r[3 + 6 * k + j], r[6 + 6 * k + j], 1000000)))
    else if (r[0] == 3) {
      pure val v0 = PASS.clause("made", [], m == 0, m, 0)
      if (m != 0) v0 else {
        pure val v1 = v0.clause("rows", [], r[3] == n and r[4] == 1, r[3], n)
          .clause("longitude", [], r[5] == r[7], r[5], r[7]).clause("latitude", [], r[6] == r[8], r[6], r[8])
          .clause("in degrees", [], r[9] == 1, r[9], 1).clause("refraction", [], r[11] == r[12], r[11], r[12])
        range(0, n).foldl(v1, (v, k) => {
          pure val p = 13 + 6 * k
          v.close("zenith", [k], r[p], 90 * S - r[p + 3], 1000000)
           .close("azimuth", [k], r[p + 1], if (r[10] == 1) r[p + 4] - 180 * S else r[p + 4], 1000000)
           .close("ecf", [k], r[p + 2], quo(S, mul(r[p + 5], r[p + 5])), 1000000)
        })
      }
    }
    else {
      pure val rows = range(0, n).select(k => r[0] == 0 or r[3 + 3 * k] < 90 * S)
      pure val sb = 3 + 3 * n * (m + 1)
      if (length(rows) < 2) PASS
      else range(0, m).foldl(PASS, (v, a) => range(0, 3).foldl(v, (w, j) => {
        pure val e = rows.foldl([], (l, k) => {
          pure val o = 3 + 3 * k
          pure val p = o + 3 * n * (a + 1)
          l.append(if (r[0] == 1) irradiance(j, r[p], r[p + 2]) - irradiance(j, r[o], r[o + 2])
                   else if (j == 1) around(r[p + 1], r[o + 1]) else r[p + j] - r[o + j])
        })
        pure val s = scores(e)
        pure val b = sb + 18 * a + 6 * j
        pure val want = [s.mbe, s.std, s.mae, s.rmse, s.p66, s.p90]
        range(0, 6).foldl(w, (x, i) => x.clause(NAMES[i], [a, j], isNum(r[b + i]) and
          iabs(r[b + i] - want[i]) <= 1000000000 + iabs(want[i]) / 1000000, r[b + i], want[i]))
      }))
    }
  }
}
