/// The PSA algorithm (Blanco-Muriel et al. 2001) with the 2020 coefficients
/// (Blanco et al. 2020), as sunwhere documents it: distance of van der Sluys and
/// van Kan (2022), equation of time of Michalsky (1988), refraction of NREL's SPA.
module psa {
  import fixed.* from "./fixed"
  import sky.* from "./sky"

  /// t: Unix seconds
  pure def ephPSA(t: int): Eph = {
    pure val jd = rdiv(t * S, 86400) - 10957500000000000000000        // days since J2000
    pure val hour = rdiv(fmod(t, 86400) * S, 3600)
    pure val omega = 2267127827000000000 - mul(930033926700000, jd)
    pure val l = 4895036035000000000 + mul(17202796020000000, jd)      // mean longitude
    pure val g = 6239468336000000000 + mul(17202001350000000, jd)      // mean anomaly
    pure val lam = l - 154435322600000 + mul(33383209720000000, sin_(g))
      + mul(349759687600000, sin_(2 * g)) - mul(8689729360000, sin_(omega))
    pure val ep = 409090490900000000 - mul(6213605399, jd) + mul(44180949440000, cos_(omega))
    pure val sinl = sin_(lam)
    pure val ra = red(atan2_(mul(cos_(ep), sinl), cos_(lam)))
    pure val dec = asin_(mul(sin_(ep), sinl))
    pure val gmst = 6697096103000000000 + mul(65709847370000000, jd) + hour   // hours
    // distance
    pure val jc = rdiv(jd, 36525)
    pure val ecc = 16708634000000000 - mul(42037000000000, jc) - mul(126700000000, sq(jc))
    pure val ma = 6240060141000000000 + mul(628301955152000000000, jc) - mul(2682571000000, sq(jc))
    pure val ctr = mul(33416108800000000 - mul(84072500000000, jc) - mul(244300000000, sq(jc)), sin_(ma))
      + mul(348943700000000 - mul(1762780000000, jc), sin_(2 * ma))
    pure val r = quo(mul(1000001017800000000, S - sq(ecc)), S + mul(ecc, cos_(ma + ctr)))
    { gha: red(rad(15 * gmst) - ra), dec: dec,
      eot: wrapMinutes(4 * deg(redpi(l - ra))),
      ecf: quo(S, sq(r)), r: r }
  }

  /// lat, lon: degrees, scale S
  pure def dirPSA(e: Eph, lat: int, lon: int, refr: bool): Dir = {
    pure val p = horizontal(e.gha + rad(lon), sin_(e.dec), cos_(e.dec), rad(lat))
    pure val sz = sinzOf(p.cosz)
    pure val z = acos_(p.cosz) + mul(42587565907514, sz)              // parallax
    pure val el = HALFPI - z
    { zens: if (refr) gated(el, el + bennett(el, 296700000000000, 89186000000000000)) else [z],
      az: p.az, cosz: p.cosz, sinz: sz }
  }
}
