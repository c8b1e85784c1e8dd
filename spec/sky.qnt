/// The observer's sky: vocabulary common to all solar position algorithms.
module sky {
  import fixed.* from "./fixed"

  /// What an algorithm says of an instant.  `gha` is the Greenwich hour angle
  /// of the sun, i.e. the hour angle at longitude 0 (radians); `dec` the
  /// declination (radians); `eot` minutes; `ecf` dimensionless; `r` the
  /// sun-earth distance in AU (only used by nrel's parallax). Scale S.
  type Eph = { gha: int, dec: int, eot: int, ecf: int, r: int }

  /// A direction in the sky. `cosz` the cosine of the true zenith angle and
  /// `sinz` its sine; `zens` the zenith angles that are correct (there are two,
  /// with and without refraction, within a hair's breadth of the threshold
  /// below which an algorithm applies no refraction); `az` radians, 0 south,
  /// positive west.
  type Dir = { zens: List[int], az: int, cosz: int, sinz: int }

  pure val REFTHR: int = -14545000000000000      // -1.4545e-2 rad
  pure val THRTOL: int = 5000000000000           // 5e-6 rad

  /// brings an equation of time in minutes to within (-720, 720]
  pure def wrapMinutes(e: int): int = {
    pure val d = 1440 * S
    pure val x = fmod(e, d)
    if (x > d / 2) x - d else x
  }
  /// angular separation of two azimuths
  pure def azDiff(a: int, b: int): int = iabs(redpi(a - b))

  /// direction from hour angle (west positive), declination and latitude
  pure def horizontal(h: int, sd: int, cd: int, lat: int): { cosz: int, az: int } = {
    pure val sl = sin_(lat)
    pure val cl = cos_(lat)
    pure val sh = sin_(h)
    pure val ch = cos_(h)
    { cosz: clamp(mul(sl, sd) + mul(mul(cl, cd), ch), -S, S),
      // sin z (sin az, cos az) = (cos dec sin h, sin lat cos dec cos h - cos lat sin dec)
      az: atan2_(mul(cd, sh), mul(sl, mul(cd, ch)) - mul(cl, sd)) }
  }

  /// the two admissible values close to a threshold, else one
  pure def gated(e: int, refracted: int): List[int] =
    if (e >= REFTHR + THRTOL) [HALFPI - refracted]
    else if (e < REFTHR - THRTOL) [HALFPI - e]
    else [HALFPI - refracted, HALFPI - e]

  /// Bennett/Saemundsson-like refraction, e radians:
  ///    k / tan(e + 3.1376e-3 / (e + c))
  pure def bennett(e: int, k: int, c: int): int =
    if (e + c == 0) 0 else {
      pure val tn = tan_(e + quo(3137600000000000, e + c))
      if (tn == 0) 0 else quo(k, tn)
    }

  pure def sinzOf(cosz: int): int = isqrt((S - cosz) * (S + cosz))
}
