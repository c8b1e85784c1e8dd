/// The sun at the times when it is said to rise and to set (C28)
module horizon_rules {
  import fixed.* from "./fixed"
  import civil.* from "./civil"
  import sky.* from "./sky"
  import algos.* from "./algos"
  import motion_rules.* from "./motion_rules"

  /// Sunrise and sunset are those of the declination and the equation of time of
  /// the instant t that was asked for; at the event te (whole seconds) they have
  /// changed. How far from the horizon the sun may be then, radians.
  pure def mostElevation(alg: int, t: int, te: int): int = {
    pure val dt = iabs(te - t)
    pure val a = imin(t, te)
    pure val b = imax(t, te)
    rad(mostDec(alg, a, b) + mostEot(alg, a, b) / 4) + rad(3 * S / 100) + 16 * ARCSEC
  }
  /// how fast the sun goes up: d(sin elevation) per radian of hour angle
  pure def steepness(phi: int, dec: int, h: int): int = mul(mul(cos_(phi), cos_(dec)), iabs(sin_(h)))
  /// steep enough to tell, from the elevations within ten minutes, whether it rises or sets
  pure val TELLING: int = S / 20
}
