/// SolTrack (van der Sluys and van Kan 2022, arXiv:2209.01557); equation of
/// time as in NREL's SPA; no refraction below a true elevation of -0.8333 deg.
module soltrack {
  import fixed.* from "./fixed"
  import sky.* from "./sky"

  pure def ephSoltrack(t: int): Eph = {
    pure val jd = rdiv(t * S, 86400) - 10957500000000000000000
    pure val jc = rdiv(jd, 36525)
    pure val jc2 = sq(jc)
    pure val l0 = 4895063168000000000 + mul(628331966786000000000, jc) + mul(5291838000000, jc2)
    pure val ma = 6240060141000000000 + mul(628301955152000000000, jc) - mul(2682571000000, jc2)
    pure val ctr = mul(33416108800000000 - mul(84072500000000, jc) - mul(244300000000, jc2), sin_(ma))
      + mul(348943700000000 - mul(1762780000000, jc), sin_(2 * ma))
    pure val omg = 2182439072500000000 - mul(33757046427100000000, jc) + mul(36222560000000, jc2)
    pure val dpsi = -mul(83386010000000, sin_(omg))
    pure val ecc = 16708634000000000 - mul(42037000000000, jc) - mul(126700000000, jc2)
    pure val r = quo(mul(1000001017800000000, S - sq(ecc)), S + mul(ecc, cos_(ma + ctr)))
    pure val lam = l0 + ctr + quo(-99308700000000, r) + dpsi
    pure val obl = 409092804222000000 - mul(226965525000000, jc) - mul(2860000000, jc2)
      + mul(44615000000000, cos_(omg))
    pure val sinl = sin_(lam)
    pure val ra = atan2_(mul(cos_(obl), sinl), cos_(lam))
    pure val dec = asin_(mul(sin_(obl), sinl))
    pure val eqeq = mul(dpsi, cos_(obl))
    pure val gmst = 4894961210000000000 + mul(6300388098985000000, jd) + mul(6770000000000, jc2)
    { gha: red(gmst + eqeq - ra), dec: dec,
      eot: wrapMinutes(4 * (deg(redpi(l0 - ra + eqeq)) - 5718300000000000)),
      ecf: quo(S, sq(r)), r: r }
  }

  pure def dirSoltrack(e: Eph, lat: int, lon: int, refr: bool): Dir = {
    pure val p = horizontal(e.gha + rad(lon), sin_(e.dec), cos_(e.dec), rad(lat))
    pure val sz = sinzOf(p.cosz)
    pure val el = HALFPI - acos_(p.cosz) - mul(42635000000000, sz)    // parallax
    { zens: if (refr) gated(el, el + bennett(el, 296700000000000, 89200000000000000)) else [HALFPI - el],
      az: p.az, cosz: p.cosz, sinz: sz }
  }
}
