/// Iqbal (1983): Fourier series in the day angle; the distance and equation of
/// time with the coefficients refitted by sunwhere; refraction of Rigollier et
/// al. (2000), at all elevations.
module iqbal {
  import fixed.* from "./fixed"
  import civil.* from "./civil"
  import sky.* from "./sky"

  /// sum of (a_k cos kx + b_k sin kx), k = 1.., plus a constant
  pure def fourier(c0: int, cs: List[(int, int)], x: int): int =
    range(0, length(cs)).foldl(c0, (acc, k) =>
      acc + mul(cs[k]._1, cos_((k + 1) * x)) + mul(cs[k]._2, sin_((k + 1) * x)))

  pure def dayAngle(t: int): int = {
    pure val c = civilOf(t)
    // 2 pi (doy + fraction of the day) / 365
    rdiv(TWOPI * (dayOfYear(c) * 86400 + fmod(t, 86400)), 365 * 86400)
  }

  pure def ephIqbal(t: int): Eph = {
    pure val x = dayAngle(t)
    pure val ecf = fourier(1000128250000000000, [
      (33357225300000000, 1994179320000000), (697434604000000, 114828177000000),
      (17402867500000, 11377802300000)], x)
    pure val eot = fourier(9865710000000000, [
      (586887180000000000, -7345381330000000000), (-3314939990000000000, -9353665410000000000),
      (-81517500000000000, -308924090000000000), (-135328890000000000, -173362200000000000)], x)
    pure val dec = fourier(6918000000000000, [
      (-399912000000000000, 70257000000000000), (-6758000000000000, 907000000000000),
      (-2697000000000000, 1480000000000000)], x)
    // true solar time at Greenwich, from noon, as an angle
    pure val gha = rdiv((fmod(t, 86400) - 43200) * TWOPI, 86400) + rdiv(mul(eot, TWOPI), 1440)
    { gha: red(gha), dec: dec, eot: eot, ecf: ecf, r: sqrt_(quo(S, ecf)) }
  }

  pure def dirIqbal(e: Eph, lat: int, lon: int, refr: bool): Dir = {
    pure val p = horizontal(e.gha + rad(lon), sin_(e.dec), cos_(e.dec), rad(lat))
    pure val z = acos_(p.cosz)
    pure val a = HALFPI - z
    pure val corr = quo(mul(61359000000000000,
        159400000000000000 + mul(1123000000000000000, a) + mul(65656000000000000, sq(a))),
        S + mul(28934400000000000000, a) + mul(277397100000000000000, sq(a)))
    { zens: [if (refr) clamp(HALFPI - (a + corr), 0, PI) else z],
      az: p.az, cosz: p.cosz, sinz: sinzOf(p.cosz) }
  }
}
