/// C15-C20: derived variables, given the position of the sun in the same result.
module conf_derived {
  import fixed.* from "./fixed"
  import sky.* from "./sky"
  import civil.* from "./civil"
  import derived.* from "./derived"
  import trace.* from "./trace"

  pure val MS: int = 1000000                 // one millisecond
  pure val P9: int = 1000000000              // 1e-9
  pure val MERIDIAN: int = 900000000000000   // 0.05 degrees, radians
  /// the same, plus what a cosine to 2e-6 leaves open of a zenith (degrees)
  pure def meridianTol(zd: int): int = {
    pure val s = iabs(sin_(rad(zd)))
    MERIDIAN + (if (s <= 1000000000000000) 2000000000000000 else quo(2000000000000, s))
  }

  /// square of the distance of two directions on the unit sphere (zenith, azimuth)
  pure def apart(z1: int, a1: int, z2: int, a2: int): int = {
    pure val x = mul(sin_(z1), cos_(a1)) - mul(sin_(z2), cos_(a2))
    pure val y = mul(sin_(z1), sin_(a1)) - mul(sin_(z2), sin_(a2))
    pure val z = cos_(z1) - cos_(z2)
    mul(x, x) + mul(y, y) + mul(z, z)
  }

  /// C15. [n, (utc, longitude, eot, true solar time, latitude, declination, azimuth, zenith) x n]
  pure def judgeTST(r: List[int]): Verdict = range(0, r[0]).foldl(PASS, (v, k) => {
    pure val b = 1 + 8 * k
    pure val want = trueSolarTime(r[b], r[b + 2], r[b + 1])
    pure val p = horizontal(-morningAngle(r[b + 3]), sin_(rad(r[b + 5])), cos_(rad(r[b + 5])), rad(r[b + 4]))
    v.clause("true solar time", [k], isNum(r[b + 3]) and iabs(r[b + 3] - want) <= MS, r[b + 3], want)
     .clause("the sun is where its hour angle says", [k], isNum(r[b + 6]) and isNum(r[b + 7]) and
        apart(rad(r[b + 7]), rad(r[b + 6]), acos_(p.cosz), p.az) <= sq(meridianTol(if (isNum(r[b + 7])) r[b + 7] else 0)), r[b + 6], deg(p.az))
  })

  /// is a number where the sun rises and sets, missing where it does not
  pure def presence(v: Verdict, name: str, at: List[int], x: int, pol: int): Verdict =
    v.clause(name, at, if (pol == 0) isNum(x) else if (pol == 1) x == NAN else x == NAN or isNum(x), x, pol)
  /// an angle w such that cos w = num / den
  pure def rightAngle(w: int, num: int, den: int): bool =
    w >= 0 and w <= PI + P9 and iabs(mul(cos_(w), den) - num) <= P9
  /// the noon of the true solar day, either one if it is midnight
  pure def noonOk(n2: int, tst: int, tol: int): bool =
    iabs(n2 - 2 * noonOf(tst)) <= tol or iabs(n2 - 2 * noonOf(tst + 2 * MS)) <= tol or iabs(n2 - 2 * noonOf(tst - 2 * MS)) <= tol

  /// C16. [n, (latitude, declination, sunrise deg, sunrise rad, sunset deg, sunset rad, daylight hours,
  ///           true solar time, sunrise tst, sunset tst) x n,
  ///       m, (outcome of unknown units: 1 ValueError) x m]
  pure def judgeSunrise(r: List[int]): Verdict = {
   pure val v0 = range(0, r[0]).foldl(PASS, (v, k) => {
    pure val b = 1 + 10 * k
    pure val phi = rad(r[b])
    pure val dec = rad(r[b + 1])
    pure val pol = polar(phi, dec)
    pure val num = horizonNum(phi, dec)
    pure val den = horizonDen(phi, dec)
    pure val v1 = range(0, 8).foldl(v, (acc, j) => if (j == 5) acc else
      acc.presence("missing in polar day and night only", [k, j], r[b + 2 + j], pol))
    pure val w = r[b + 3]
    if (range(2, 10).foldl(true, (ok, j) => ok and isNum(r[b + j])))
      v1.clause("sunrise equation", [k], rightAngle(w, num, den), w, if (den > 0) acos_(clamp(quo(num, den), -S, S)) else 0)
        .close("degrees and radians", [k], r[b + 2], deg(w), 100 * P9)
        .close("sunset rad is minus sunrise rad", [k], r[b + 5], -w, P9)
        .close("sunset deg is minus sunrise deg", [k], r[b + 4], -r[b + 2], 100 * P9)
        .close("daylight length", [k], r[b + 6], rdiv(2 * r[b + 2], 15), 10 * P9)
        .clause("symmetric about solar noon", [k], noonOk(r[b + 8] + r[b + 9], r[b + 7], 2 * MS), r[b + 8] + r[b + 9], 2 * noonOf(r[b + 7]))
        .close("half a day length from noon", [k], (r[b + 9] - r[b + 8]), rdiv(r[b + 6] * 3600, P9), 2 * MS)
    else v1
  })
   pure val b0 = 1 + 10 * r[0]
   range(0, r[b0]).foldl(v0, (v, k) => v.clause("unknown units are refused", [k], r[b0 + 1 + k] == 1, r[b0 + 1 + k], 1))
  }

  /// C17. [zone, n, (utc, latitude, longitude, declination, eot, true solar time,
  ///       sunrise tst, utc, local, sunset tst, utc, local) x n]
  pure def judgeClocks(r: List[int]): Verdict = range(0, r[1]).foldl(PASS, (v, k) => {
    pure val b = 2 + 12 * k
    pure val pol = polar(rad(r[b + 1]), rad(r[b + 3]))
    pure val shift = solarShift(r[b + 4], r[b + 2])
    pure val off = utcOffset(r[0], fdiv(r[b], 1000000000)) * 1000000000
    pure val v1 = range(0, 6).foldl(v, (acc, j) =>
      acc.presence("missing in polar day and night only", [k, j], r[b + 6 + j], pol))
    if (range(0, 6).foldl(true, (ok, j) => ok and isNum(r[b + 6 + j])))
      range(0, 2).foldl(v1, (acc, j) => {
        pure val o = b + 6 + 3 * j
        acc.close("true solar time and UTC", [k, j], r[o] - r[o + 1], shift, 2 * MS)
           .close("local time and UTC", [k, j], r[o + 2] - r[o + 1], off, 2 * MS)
      }).clause("in the true solar day of the instant", [k], noonOk(r[b + 6] + r[b + 9], r[b + 5], 4 * MS)
          and noonOk(r[b + 6] + r[b + 9], r[b] + shift, 4 * MS), r[b + 6] + r[b + 9], 2 * noonOf(r[b + 5]))
       .clause("sunrise before sunset, within a day", [k], r[b + 9] >= r[b + 6] and r[b + 9] - r[b + 6] <= DAYNS + 2 * MS, r[b + 9], r[b + 6])
    else v1.clause("all clocks or none", [k], range(0, 6).foldl(true, (ok, j) => ok and r[b + 6 + j] == NAN), r[b + 6], r[b + 7])
  })

  /// C18. [n, (latitude, declination, true solar time, zenith without refraction,
  ///           m, (slope, azimuth, incidence) x m) x n]
  pure def judgeIncidence(r: List[int]): Verdict = range(0, r[0]).foldl((PASS, 1), (acc, k) => {
    pure val b = acc._2
    pure val phi = rad(r[b])
    pure val dec = rad(r[b + 1])
    pure val w = morningAngle(r[b + 2])
    pure val m = r[b + 4]
    (range(0, m).foldl(acc._1, (v, j) => {
      pure val o = b + 5 + 3 * j
      pure val x = incidence(phi, dec, w, rad(r[o]), rad(r[o + 1]))
      v.close("incidence", [k, j], r[o + 2], x, 100 * P9)
       .clause("within [-1, 1]", [k, j], iabs(r[o + 2]) <= S + P9, r[o + 2], S)
       .clause("horizontal surfaces see the zenith angle", [k, j], r[o] != 0 or
          iabs(r[o + 2] - cos_(rad(r[b + 3]))) <= 2 * MERIDIAN, r[o + 2], cos_(rad(r[b + 3])))
    }), b + 5 + 3 * m)
  })._1

  /// C19. [n, (zenith, air mass by each of the four parameterizations) x n, nErr, outcome x nErr]
  /// the zeniths in ascending order; outcome of an unknown parameterization: 1 ValueError
  pure def judgeAirmass(r: List[int]): Verdict = {
    pure val v0 = range(0, r[0]).foldl(PASS, (v, k) => range(0, 4).foldl(v, (acc, p) => {
      pure val z = r[1 + 5 * k]
      pure val x = r[2 + 5 * k + p]
      pure val want = if (isNum(z) and z >= 0 and z <= 90 * S) airmass(p, z) else NAN
      pure val rel = if (isNum(want)) want / 1000000 else 0
      // single precision of the zenith may tell on the last digits
      acc.clause("air mass", [k, p], if (z > 90 * S - P9 and z < 90 * S + P9) x == NAN or isNum(x) else
            if (isNum(want)) isNum(x) and iabs(x - want) <= rel else x == NAN, x, want)
         .clause("at least 1", [k, p], x == NAN or x >= S, x, S)
         .clause("grows with the zenith angle", [k, p], if (k == 0 or not(isNum(x))) true else {
            pure val y = r[2 + 5 * (k - 1) + p]
            isNum(y) and y <= x + x / 1000000 }, x, if (k > 0) r[2 + 5 * (k - 1) + p] else 0)
    }))
    pure val e = 1 + 5 * r[0]
    range(0, r[e]).foldl(v0, (v, k) => v.clause("unknown parameterization", [k], r[e + 1 + k] == 1, r[e + 1 + k], 1))
  }

  /// C20. [n, (isc, ecf, zenith, eth none, perez, skarveith, gonzalez) x n, nErr, outcome x nErr]
  pure def judgeEth(r: List[int]): Verdict = {
    pure val v0 = range(0, r[0]).foldl(PASS, (v, k) => range(0, 4).foldl(v, (acc, c) => {
      pure val b = 1 + 7 * k
      pure val z = r[b + 2]
      pure val x = r[b + 3 + c]
      pure val base = eth(r[b], r[b + 1], cos_(rad(z)))
      pure val tol = rdiv(r[b], 10000000) + P9
      if (z <= 90 * S - P9) {
        pure val want = mul(base, correction(c, z))
        acc.close("irradiance", [k, c], x, want, tol)
           .clause("never negative", [k, c], x >= 0, x, 0)
      } else
        // at night; the air mass is then missing, and so may be what is corrected with it
        acc.clause("zero at night", [k, c], (isNum(x) and iabs(x) <= tol) or ((c == 1 or c == 3) and x == NAN), x, 0)
    }))
    pure val e = 1 + 7 * r[0]
    range(0, r[e]).foldl(v0, (v, k) => v.clause("unknown correction", [k], r[e + 1 + k] == 1, r[e + 1 + k], 1))
  }

  pure def judge(prop: int, rec: int): Verdict = {
    pure val r = unpack(rec)
    if (prop == 15) judgeTST(r) else if (prop == 16) judgeSunrise(r) else if (prop == 17) judgeClocks(r)
    else if (prop == 18) judgeIncidence(r) else if (prop == 19) judgeAirmass(r) else judgeEth(r)
  }
}
