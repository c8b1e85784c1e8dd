/// C12: what turning refraction on does. Angles in degrees.
/// Record: [alg, nT, (ecf, eot, dec with flag off and on) x nT,
///          nC, (zenith off, zenith on, azimuth off, azimuth on) x nC,
///          nF, (0 falsy or 1 truthy flag, zenith) x nF]   -- flags: at the first cell
module conf_refraction {
  import fixed.* from "./fixed"
  import trace.* from "./trace"

  pure val M: int = 1000000000000000              // 1e-3 degrees
  pure val TINY: int = 10000000000000             // 1e-5 degrees: single precision
  pure val NOISE: int = 30000000000000            // 3e-5 degrees

  /// single precision blurs the zenith close to the zenith and the nadir
  pure def blurred(z: int): bool = z < S or z > 179 * S

  pure def judge(rec: int): Verdict = {
    pure val r = unpack(rec)
    pure val alg = r[0]
    pure val v0 = range(0, r[1]).foldl(PASS, (v, k) => {
      pure val b = 2 + 6 * k
      v.close("ecf unchanged", [k], r[b + 3], r[b], 1000000000)
       .close("eot unchanged", [k], r[b + 4], r[b + 1], 1000000000)
       .close("declination unchanged", [k], r[b + 5], r[b + 2], 1000000000)
    })
    pure val c0 = 2 + 6 * r[1]
    pure val nc = r[c0]
    pure val v1 = range(0, nc).foldl(v0, (v, k) => {
      pure val b = c0 + 1 + 4 * k
      pure val z = r[b]
      pure val up = z - r[b + 1]
      pure val el = 90 * S - z
      pure val gated_ = alg != 2
      pure val tol = if (blurred(z)) 30 * M else NOISE
      v.clause("azimuth unchanged", [k], isNum(r[b + 2]) and isNum(r[b + 3])
          and (azd(r[b + 2], r[b + 3]) <= TINY or blurred(z)), r[b + 3], r[b + 2])
       .clause("never lowers the sun", [k], isNum(z) and isNum(r[b + 1]) and up >= (if (gated_ or el >= 0) -M else -40 * M) - tol, up, 0)
       .clause("raises the sun little", [k],
          up <= (if (gated_ or el >= 0) 700 * M else 1500 * M), up, 700 * M)
       .clause("about half a degree at the horizon", [k],
          iabs(el) <= 20 * M implies up >= 400 * M, up, 400 * M)
       .clause("next to nothing above 80 degrees", [k], el >= 80 * S implies up <= 12 * M + tol, up, 0)
       .clause("nothing below the horizon", [k], gated_ and el < -840 * M implies iabs(up) <= tol, up, 0)
    })
    // the higher, the less: consecutive cells, sorted by elevation by the harness
    pure val v2 = range(1, nc).foldl(v1, (v, k) => {
      pure val b = c0 + 1 + 4 * k
      pure val a = b - 4
      pure val lower = r[a]
      pure val higher = r[b]
      if (lower >= higher and lower <= 90 * S and not(blurred(higher)))
        v.clause("the higher the less", [k], higher - r[b + 1] <= lower - r[a + 1] + 2 * NOISE,
                 higher - r[b + 1], lower - r[a + 1])
      else v
    })
    pure val f0 = c0 + 1 + 4 * nc
    range(0, r[f0]).foldl(v2, (v, k) => {
      pure val b = f0 + 1 + 2 * k
      v.close("truth of the flag", [k], r[b + 1], if (r[b] == 1) r[c0 + 2] else r[c0 + 1], NOISE)
    })
  }
  pure def azd(a: int, b: int): int = {
    pure val d = iabs(a - b)
    imin(d, iabs(360 * S - d))
  }
}
