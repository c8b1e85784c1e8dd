/// C26: results of the other algorithms next to nrel's.
/// Record: [n, (t, (ecf, eot, dec) of nrel, q, (alg, ecf, eot, dec) x q) x n, m, (t, (zenith, azimuth) of nrel, q, (alg, zenith, azimuth) x q) x m]
module conf_agree {
  import fixed.* from "./fixed"
  import trace.* from "./trace"
  import motion_rules.* from "./motion_rules"

  pure def near(v: Verdict, name: str, at: List[int], a: int, b: int, most: int): Verdict =
    v.clause(name, at, isNum(a) and isNum(b) and iabs(a - b) <= most, a, b)

  pure def judge(rec: int): Verdict = {
    pure val r = unpack(rec)
    pure val x = range(0, r[0]).foldl({ v: PASS, p: 1 }, (acc, i) => {
      pure val p = acc.p
      pure val q = r[p + 4]
      { v: range(0, q).foldl(acc.v, (v, k) => {
          pure val b = p + 5 + 4 * k
          v.near("ecf", [r[p], r[b]], r[b + 1], r[p + 1], farEcf(r[b]))
           .near("equation of time", [r[p], r[b]], r[b + 2], r[p + 2], farEot(r[b]))
           .near("declination", [r[p], r[b]], r[b + 3], r[p + 3], farDec(r[b]))
        }),
        p: p + 5 + 4 * q }
    })
    range(0, r[x.p]).foldl({ v: x.v, p: x.p + 1 }, (acc, i) => {
      pure val p = acc.p
      pure val q = r[p + 3]
      { v: range(0, q).foldl(acc.v, (v, k) => {
          pure val b = p + 4 + 3 * k
          pure val nums = isNum(r[p + 1]) and isNum(r[p + 2]) and isNum(r[b + 1]) and isNum(r[b + 2])
          pure val d = if (nums) apart(rad(r[p + 1]), rad(r[p + 2]), rad(r[b + 1]), rad(r[b + 2])) else PI
          v.clause("direction of the sun", [r[p], r[b], i], nums and
            d <= rad(farAngle(r[b])) + rounding(r[b], rad(r[b + 1])) + rounding(3, rad(r[p + 1])), deg(d), farAngle(r[b]))
        }),
        p: p + 4 + 3 * q }
    }).v
  }
}
