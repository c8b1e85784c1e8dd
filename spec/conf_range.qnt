/// C11: every angle is finite and in its documented range.
/// Record: [nE, (ecf, eot, dec) x nE, nC, (zenith, elevation, azimuth, cosz) x nC]
module conf_range {
  import fixed.* from "./fixed"
  import trace.* from "./trace"

  pure val EPS: int = 1000000000000          // 1e-6 degrees of leeway for rounding
  pure val Q: int = 1000000000000000
  pure def inRange(v: Verdict, name: str, at: List[int], x: int, lo: int, hi: int): Verdict =
    v.clause(name, at, isNum(x) and x >= lo and x <= hi, x, if (x < lo) lo else hi)

  pure def judge(rec: int): Verdict = {
    pure val r = unpack(rec)
    pure val v0 = range(0, r[0]).foldl(PASS, (v, k) =>
      v.inRange("ecf", [k], r[1 + 3 * k], 960 * Q, 1040 * Q)
       .inRange("eot", [k], r[2 + 3 * k], -20 * S, 20 * S)
       .inRange("declination", [k], r[3 + 3 * k], -24 * S, 24 * S))
    pure val b0 = 1 + 3 * r[0]
    range(0, r[b0]).foldl(v0, (v, k) => {
      pure val b = b0 + 1 + 4 * k
      v.inRange("zenith", [k], r[b], -EPS, 180 * S + EPS)
       .inRange("elevation", [k], r[b + 1], -90 * S - EPS, 90 * S + EPS)
       .inRange("azimuth", [k], r[b + 2], -180 * S - EPS, 180 * S + EPS)
       .inRange("cosz", [k], r[b + 3], -S - EPS, S + EPS)
    })
  }
}
