/// C28: the sun at its sunrise and at its sunset.
/// Record: [algorithm, n, (t, latitude, declination, (when, elevation then, ten minutes later) x 2) x n],
/// t whole seconds; when: whole seconds, or NAN; elevations in degrees, without refraction
module conf_horizon {
  import fixed.* from "./fixed"
  import trace.* from "./trace"
  import derived.* from "./derived"
  import horizon_rules.* from "./horizon_rules"

  pure def judge(rec: int): Verdict = {
    pure val r = unpack(rec)
    pure val a = r[0]
    range(0, r[1]).foldl(PASS, (v, k) => {
      pure val b = 2 + 9 * k
      pure val phi = rad(r[b + 1])
      pure val dec = rad(r[b + 2])
      pure val num = horizonNum(phi, dec)
      pure val den = horizonDen(phi, dec)
      pure val p = polar(phi, dec)
      range(0, 2).foldl(v, (w, j) => {
        pure val o = b + 3 + 3 * j
        if (p != 0) w.clause("no sunrise or sunset", [k, j], p == 2 or r[o] == NAN, r[o], NAN)
        else if (not(isNum(r[o]) and isNum(r[o + 1]) and isNum(r[o + 2])))
          w.clause("there is a sunrise and a sunset", [k, j], false, r[o], r[o + 1])
        else {
          pure val most = deg(mostElevation(a, r[b], r[o]))
          pure val h = acos_(clamp(quo(num, den), -S, S))
          pure val w1 = w.clause("the sun is on the horizon", [k, j], iabs(r[o + 1]) <= most, r[o + 1], most)
          if (steepness(phi, dec, h) <= TELLING) w1
          else w1.clause("it rises at sunrise, and sets at sunset", [k, j],
            if (j == 0) r[o + 2] > r[o + 1] else r[o + 2] < r[o + 1], r[o + 1], r[o + 2])
        }
      })
    })
  }
}
