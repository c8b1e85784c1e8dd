/// How the sun moves (C27), and how far the algorithms may be from one another (C26)
module motion_rules {
  import fixed.* from "./fixed"
  import civil.* from "./civil"
  import sky.* from "./sky"
  import algos.* from "./algos"

  pure val ARCSEC: int = PI / 648000
  pure val SPEED_MAX: int = 15010 * ARCSEC / 1000          // per second of time
  pure val SPEED_MIN: int = 13700 * ARCSEC / 1000
  pure val DAY: int = 86400

  /// square of the distance of two directions on the unit sphere (zenith, azimuth)
  pure def apart2(z1: int, a1: int, z2: int, a2: int): int = {
    pure val x = mul(sin_(z1), cos_(a1)) - mul(sin_(z2), cos_(a2))
    pure val y = mul(sin_(z1), sin_(a1)) - mul(sin_(z2), sin_(a2))
    pure val z = cos_(z1) - cos_(z2)
    mul(x, x) + mul(y, y) + mul(z, z)
  }
  /// angle between two directions
  pure def apart(z1: int, a1: int, z2: int, a2: int): int = {
    pure val h = sqrt_(apart2(z1, a1, z2, a2)) / 2
    2 * asin_(imin(S, h))
  }
  /// what rounding may move a direction whose zenith angle is z
  pure def rounding(alg: int, z: int): int = {
    pure val s = iabs(sin_(z))
    pure val worst = sqrt_(4 * tolCos(alg))
    if (s == 0) worst else imin(worst, quo(3 * tolCos(alg), s))
  }

  /// does a year end between two instants?
  pure def newYear(t1: int, t2: int): bool = civilOf(t1).y != civilOf(t2).y
  /// the day angle of iqbal restarts every year
  pure def restarts(alg: int, t1: int, t2: int): int = if (alg == 2 and newYear(t1, t2)) 1 else 0

  /// most that can change in s seconds
  pure def mostDec(alg: int, t1: int, t2: int): int =       // degrees
    (t2 - t1) * (4 * S / 10) / DAY + restarts(alg, t1, t2) * S / 10 + 10000000
  pure def mostEot(alg: int, t1: int, t2: int): int =       // minutes
    (t2 - t1) * (51 * S / 100) / DAY + restarts(alg, t1, t2) * S / 2 + 100000000
  pure def mostEcf(alg: int, t1: int, t2: int): int =
    (t2 - t1) * (6 * S / 10000) / DAY + restarts(alg, t1, t2) * S / 25000 + 100000
  pure def mostAngle(alg: int, t1: int, t2: int): int = (t2 - t1) * SPEED_MAX + restarts(alg, t1, t2) * rad(15 * S / 100)
  pure def leastAngle(alg: int, t1: int, t2: int): int = imax(0, (t2 - t1) * SPEED_MIN - restarts(alg, t1, t2) * rad(15 * S / 100))

  /// agreement with nrel, 2020-2050: direction (degrees), declination, equation of time, distance correction
  pure def farAngle(alg: int): int = if (alg == 2) 5 * S / 10 else 15 * S / 1000
  pure def farDec(alg: int): int = if (alg == 2) 45 * S / 100 else 6 * S / 1000
  pure def farEot(alg: int): int = if (alg == 2) 55 * S / 100 else 8 * S / 100
  pure def farEcf(alg: int): int = if (alg == 2) 8 * S / 10000 else 2 * S / 10000
}
