/// What a result derives from the position of the sun: true solar time,
/// sunrise and sunset, incidence on a tilted surface, air mass and
/// extraterrestrial irradiance. Scale S; angles in radians unless a name ends in
/// `d` (degrees); clocks in integer nanoseconds.
module derived {
  import fixed.* from "./fixed"

  pure val DAYNS: int = 86400000000000
  /// equation of time plus four minutes per degree of longitude, nanoseconds
  pure def solarShift(eot: int, lond: int): int = rdiv((eot + 4 * lond) * 60, 1000000000)
  pure def trueSolarTime(utc: int, eot: int, lond: int): int = utc + solarShift(eot, lond)
  /// noon of the true solar day of a true solar time
  pure def noonOf(tst: int): int = fdiv(tst, DAYNS) * DAYNS + DAYNS / 2
  /// hour angle, positive in the morning
  pure def morningAngle(tst: int): int = rdiv((noonOf(tst) - tst) * TWOPI, DAYNS)

  // ---------------------------------------------------------------- sunrise
  /// -tan(phi) tan(delta) as a fraction
  pure def horizonNum(phi: int, dec: int): int = -mul(sin_(phi), sin_(dec))
  pure def horizonDen(phi: int, dec: int): int = mul(cos_(phi), cos_(dec))
  /// 0 the sun rises and sets; 1 it does not; 2 too close to tell
  pure def polar(phi: int, dec: int): int = {
    pure val n = iabs(horizonNum(phi, dec))
    pure val d = horizonDen(phi, dec)
    if (n > d + 1000000000) 1 else if (n < d - 1000000000) 0 else 2
  }

  // -------------------------------------------------------------- incidence
  /// scalar product of the normal of a surface (slope beta, azimuth gamma from
  /// south, positive east) with the direction of the sun
  pure def incidence(phi: int, dec: int, w: int, beta: int, gamma: int): int = {
    pure val up = mul(sin_(phi), sin_(dec)) + mul(mul(cos_(phi), cos_(dec)), cos_(w))
    pure val north = mul(cos_(phi), sin_(dec)) - mul(mul(sin_(phi), cos_(dec)), cos_(w))
    pure val east = mul(cos_(dec), sin_(w))
    mul(cos_(beta), up) - mul(mul(sin_(beta), cos_(gamma)), north) + mul(mul(sin_(beta), sin_(gamma)), east)
  }

  // --------------------------------------------------------------- air mass
  pure val KASTEN_1965: int = 1
  pure val KASTEN_YOUNG_1989: int = 2
  pure val GUEYMARD_2001: int = 3
  pure val GUEYMARD_2003: int = 0
  pure def powd(x: int, y: int): int = if (x <= 0) 0 else pow_(x, y)
  /// relative optical air mass at a zenith angle of at most 90 degrees
  pure def airmass(p: int, zd: int): int = {
    pure val c = cos_(rad(zd))
    pure val rec =
      if (p == KASTEN_1965) c + mul(150000000000000000, pow_(93885000000000000000 - zd, -1253000000000000000))
      else if (p == KASTEN_YOUNG_1989)
        c + mul(505720000000000000, pow_(96079950000000000000 - zd, -1636400000000000000))
      else if (p == GUEYMARD_2001)
        c + mul(mul(456650000000000000, powd(zd, 70000000000000000)), pow_(96483600000000000000 - zd, -1697000000000000000))
      else
        c + mul(mul(483530000000000000, powd(zd, 95846000000000000)), pow_(96741000000000000000 - zd, -1754000000000000000))
    imax(S, quo(S, rec))
  }

  // ------------------------------------------------- extraterrestrial irradiance
  pure def eth(isc: int, ecf: int, cosz: int): int = mul(mul(isc, ecf), imax(0, cosz))
  /// 0 none 1 Perez 1990 2 Skartveit 1998 3 Gonzalez and Calbo 1999; sun above the horizon
  pure def correction(c: int, zd: int): int =
    if (c == 1) {
      pure val am = airmass(KASTEN_YOUNG_1989, zd)
      100000000000000000 + mul(1031000000000000000,
        exp_(-quo(1400000000000000000, 900000000000000000 + quo(9400000000000000000, am))))
    }
    else if (c == 2) 830000000000000000 - mul(560000000000000000, exp_(-mul(60000000000000000, 90 * S - zd)))
    else if (c == 3) {
      pure val am = airmass(GUEYMARD_2003, zd)
      pure val d = 124000000000000000 - mul(28500000000000000, ln_(am))
      229000000000000000 + mul(957000000000000000, exp_(-mul(mul(1740000000000000000, am), d)))
    }
    else S
}
