/// NREL's SPA (Reda and Andreas 2003, rev. 2008), with delta T = 67 s, observer
/// at sea level, 1013.25 hPa, 12 C. Angles of the report's sums in degrees.
module nrel {
  import fixed.* from "./fixed"
  import sky.* from "./sky"
  import nrel_tables.* from "./nrel_tables"

  /// sum of A cos(B + C x)
  pure def series(ts: List[(int, int, int)], x: int): int =
    ts.foldl(0, (acc, c) => acc + c._1 * cos_(c._2 + mul(c._3, x)))
  /// (s0 + s1 x + s2 x^2 + ...) / 10^8
  pure def poly8(ss: List[int], x: int): int =
    rdiv(range(0, length(ss)).foldl(0, (acc, i) => mul(acc, x) + ss[length(ss) - 1 - i]), 100000000)

  pure def ephNREL(t: int): Eph = {
    pure val d = rdiv(t * S, 86400) - 10957500000000000000000       // JD - 2451545
    pure val de = d + rdiv(67 * S, 86400)
    pure val jc = rdiv(d, 36525)
    pure val jce = rdiv(de, 36525)
    pure val jme = rdiv(de, 365250)
    // heliocentric position of the Earth
    pure val L = poly8([series(L0, jme), series(L1, jme), series(L2, jme), series(L3, jme),
                        series(L4, jme), series(L5, jme)], jme)
    pure val B = poly8([series(B0, jme), series(B1, jme)], jme)
    pure val R = poly8([series(R0, jme), series(R1, jme), series(R2, jme), series(R3, jme),
                        series(R4, jme)], jme)
    // nutation: arguments, radians
    pure def arg(c0: int, c1: int, c2: int, c3: int): int = {
      pure val j2 = sq(jce)
      red(rad(c0 + mul(c1, jce) + mul(c2, j2) + sgn(c3) * rdiv(mul(j2, jce), iabs(c3))))
    }
    pure val x0 = arg(297850360000000000000, 445267111480000000000000, -1914200000000000, 189474)
    pure val x1 = arg(357527720000000000000, 35999050340000000000000, -160300000000000, -300000)
    pure val x2 = arg(134962980000000000000, 477198867398000000000000, 8697200000000000, 56250)
    pure val x3 = arg(93271910000000000000, 483202017538000000000000, -3682500000000000, 327270)
    pure val x4 = arg(125044520000000000000, -1934136261000000000000, 2070800000000000, 450000)
    pure val nut = NUT0.concat(NUT1).foldl((0, 0), (acc, n) => {
      pure val a = n._5 * x0 + n._6 * x1 + n._7 * x2 + n._8 * x3 + n._9 * x4
      (acc._1 + mul(n._1 * S + n._2 * jme, sin_(a)), acc._2 + mul(n._3 * S + n._4 * jme, cos_(a)))
    })
    // 0.0001 arc-second -> radians (terms carry a factor of 10)
    pure val dpsi = rad(rdiv(nut._1, 360000000))
    pure val deps = rad(rdiv(nut._2, 360000000))
    pure val u = rdiv(jme, 10)
    pure val eps0 = horner([2450000000000000000, 5790000000000000000, 27870000000000000000,
      7120000000000000000, -39050000000000000000, -249670000000000000000,
      -51380000000000000000, 1999250000000000000000, -1550000000000000000,
      -4680930000000000000000, 84381448000000000000000], u)         // arc-seconds
    pure val eps = rad(rdiv(eps0, 3600)) + deps
    pure val beta = -B
    pure val lam = L + PI + dpsi + rad(quo(-20489800000000000000, 3600 * R))
    pure val ce = cos_(eps)
    pure val se = sin_(eps)
    pure val ra = atan2_(mul(sin_(lam), ce) - mul(tan_(beta), se), cos_(lam))
    pure val dec = asin_(mul(sin_(beta), ce) + mul(mul(cos_(beta), se), sin_(lam)))
    // sidereal time at Greenwich, degrees
    pure val v0 = 280460618370000000000 + mul(360985647366290000000, d)
      + mul(387933000000000, sq(jc)) - rdiv(mul(sq(jc), jc), 38710000)
    pure val eqeq = mul(dpsi, ce)
    // sun's mean longitude, degrees
    pure val j2 = sq(jme)
    pure val m = 280466456700000000000 + mul(360007698277900000000000, jme)
      + mul(30320280000000000, j2) + rdiv(mul(j2, jme), 49931) - rdiv(sq(j2), 15300)
      - rdiv(mul(sq(j2), jme), 2000000)
    { gha: red(rad(v0) + eqeq - ra), dec: dec,
      eot: wrapMinutes(4 * (m - 5718300000000000 - deg(ra) + deg(eqeq))),
      ecf: quo(S, sq(R)), r: R }
  }

  pure def dirNREL(e: Eph, lat: int, lon: int, refr: bool): Dir = {
    pure val phi = rad(lat)
    pure val H = e.gha + rad(lon)
    pure val xi = rad(quo(8794000000000000000, 3600 * e.r))
    // u = atan(0.99664719 tan phi), without the singularity at the poles
    pure val u = atan2_(mul(996647190000000000, sin_(phi)), cos_(phi))
    pure val x = cos_(u)
    pure val y = mul(996647190000000000, sin_(u))
    pure val sxi = sin_(xi)
    pure val den = cos_(e.dec) - mul(mul(x, sxi), cos_(H))
    pure val da = atan2_(-mul(mul(x, sxi), sin_(H)), den)
    pure val decp = atan2_(mul(sin_(e.dec) - mul(y, sxi), cos_(da)), den)
    pure val p = horizontal(H - da, sin_(decp), cos_(decp), phi)
    pure val el = HALFPI - acos_(p.cosz)
    pure val k = quo(101325 * 283 * 17802000000000000, 101000 * 285 * 60 * S)
    { zens: if (refr) gated(el, el + bennett(el, k, 89186000000000000)) else [HALFPI - el],
      az: p.az, cosz: p.cosz, sinz: sinzOf(p.cosz) }
  }
}
