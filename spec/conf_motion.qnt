/// C27: results at successive instants of a walk.
/// Record: [algorithm, fine, n, (t, ecf, eot, dec) x n, m, ((zenith, azimuth) x n) x m], degrees; if fine is 1, instants
/// are up to a second later than t
module conf_motion {
  import fixed.* from "./fixed"
  import trace.* from "./trace"
  import motion_rules.* from "./motion_rules"

  pure def within(v: Verdict, name: str, at: List[int], a: int, b: int, most: int): Verdict =
    v.clause(name, at, isNum(a) and isNum(b) and iabs(b - a) <= most, iabs(b - a), most)

  pure def judge(rec: int): Verdict = {
    pure val r = unpack(rec)
    pure val a = r[0]
    pure val fine = r[1]
    pure val n = r[2]
    pure def t(k: int): int = r[3 + 4 * k]
    pure val v0 = range(0, n - 1).foldl(PASS, (v, k) => {
      pure val b = 3 + 4 * k
      v.within("ecf moves slowly", [t(k), t(k + 1)], r[b + 1], r[b + 5], mostEcf(a, t(k), t(k + 1) + fine))
       .within("equation of time moves slowly", [t(k), t(k + 1)], r[b + 2], r[b + 6], mostEot(a, t(k), t(k + 1) + fine))
       .within("declination moves slowly", [t(k), t(k + 1)], r[b + 3], r[b + 7], mostDec(a, t(k), t(k + 1) + fine))
    })
    pure val b0 = 4 + 4 * n
    range(0, r[b0 - 1]).foldl(v0, (v, j) => range(0, n - 1).foldl(v, (w, k) => {
      pure val b = b0 + 2 * n * j + 2 * k
      if (not(isNum(r[b]) and isNum(r[b + 1]) and isNum(r[b + 2]) and isNum(r[b + 3])))
        w.clause("the sun is somewhere", [t(k), t(k + 1), j], false, r[b], r[b + 2])
      else {
        pure val slack = rounding(a, rad(r[b])) + rounding(a, rad(r[b + 2]))
        pure val d = apart(rad(r[b]), rad(r[b + 1]), rad(r[b + 2]), rad(r[b + 3]))
        w.clause("the sun moves no faster than it can", [t(k), t(k + 1), j], d <= mostAngle(a, t(k), t(k + 1) + fine) + slack, deg(d),
                 deg(mostAngle(a, t(k), t(k + 1) + fine)))
         .clause("the sun does not stop", [t(k), t(k + 1), j], d >= leastAngle(a, t(k) + fine, t(k + 1)) - slack, deg(d),
                 deg(leastAngle(a, t(k) + fine, t(k + 1))))
      }
    }))
  }
}
