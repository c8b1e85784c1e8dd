/// Walks along time around the boundaries of the calendar, as specified (C27), and the
/// algorithms side by side (C26)
module motion {
  import fixed.* from "./fixed"
  import civil.* from "./civil"
  import sky.* from "./sky"
  import algos.* from "./algos"
  import motion_rules.* from "./motion_rules"

  type Seen = { t: int, e: Eph, d: Dir }
  var alg: int
  var lat: int
  var lon: int
  var now: Seen
  var before: Seen
  var age: int            // steps of the walk; 0 when it starts
  var frac: int           // nanoseconds after `now` at which the sun is asked for, in walks of fine instants
  var fine: int           // 1 in those walks

  pure val GAPS: List[int] = [1, 2, 5, 30, 60, 299, 600, 1800, 3600]
  pure val FRACS: List[int] = [0, 1, 999, 1000, 1000000, 499999999, 500000000, 500000001, 750000000, 999000000, 999999000, 999999999]
  pure val LATS: List[int] = [0, 23, -23, 45, -45, 66, -66, 85, -89, 90]
  pure val BOUNDARIES: List[int] = [1, 2, 3, 12]
  pure def seen(a: int, t: int, la: int, lo: int): Seen = {
    pure val e = eph(a, t)
    { t: t, e: e, d: dir(a, e, la, lo, false) }
  }
  /// a start shortly before something may happen
  pure def start(c: int, u: int, v: int): int = {
    pure val y = 1700 + u % 550
    pure val b =
      if (c == 0) unixOf(y, 1, 1, 0, 0, 0)
      else if (c == 1) unixOf(y, 3, 1, 0, 0, 0) - 86400 * (v % 2)
      else if (c == 2) unixOf(1700 + 4 * (u % 137), 12, 31, 0, 0, 0) + 86400 * (v % 2)
      else if (c == 3) unixOf(y, 1 + v % 12, 1, 0, 0, 0)
      else if (c == 4) unixOf(1700 + 100 * (u % 6), [1, 2, 3, 12][v % 4], [1, 28, 1, 31][v % 4], 0, 0, 0) + 86400 * (u / 7 % 2)
      else if (c == 5) v % 3 * 43200
      else unixOf(y, 1, 1, 0, 0, 0) + v % 31536000 / 3600 * 3600
    b
  }
  action init = all {
    alg' = 0, lat' = 0, lon' = 0, age' = 0, frac' = 0, fine' = 0,
    now' = seen(0, 0, 0, 0),
    before' = seen(0, 0, 0, 0)
  }
  action begin = {
    nondet a = 0.to(3).oneOf()
    nondet c = 0.to(7).oneOf()
    nondet u = 0.to(1000000000).oneOf()
    nondet v = 0.to(1000000000).oneOf()
    nondet la = 0.to(9).oneOf()
    nondet lo = 0.to(359).oneOf()
    nondet g = 1.to(4000).oneOf()
    nondet f = FRACS.indices().oneOf()
    nondet fn = 0.to(2).oneOf()
    val la1 = LATS[la] * S + (if (la < 8) (v % 1000000 - 500000) * 1000000000000 else 0)
    val lo1 = lo * S - 180 * S + u % 1000000 * 1000000000000
    val s = seen(a, start(c, u, v) - g, la1, lo1)
    all { alg' = a, lat' = la1, lon' = lo1, age' = 0, now' = s, before' = s, fine' = fn / 2, frac' = fn / 2 * FRACS[f] }
  }
  action walk = {
    nondet g = 0.to(8).oneOf()
    nondet f = FRACS.indices().oneOf()
    val s = seen(alg, now.t + GAPS[g], lat, lon)
    all { alg' = alg, lat' = lat, lon' = lon, age' = age + 1, now' = s, before' = now, fine' = fine, frac' = fine * FRACS[f] }
  }
  action step = if (age == 4) begin else walk
  /// the algorithms one after another at the same instant and place
  action turn = {
    nondet u = 0.to(978307199).oneOf()
    nondet v = 0.to(1000000000).oneOf()
    nondet la = 0.to(9).oneOf()
    val a = (alg + 3) % 4
    val t = if (a == 3) unixOf(2020, 1, 1, 0, 0, 0) + u else now.t
    val la1 = if (a == 3) clamp(LATS[la] * S + (v % 1000000 - 500000) * 10000000000000, -90 * S, 90 * S) else lat
    val lo1 = if (a == 3) v % 360000 * 1000000000000000 - 180 * S else lon
    val s = seen(a, t, la1, lo1)
    all { alg' = a, lat' = la1, lon' = lo1, age' = age + 1, now' = s, before' = if (a == 3) s else before, fine' = 0, frac' = 0 }
  }

  val turned = apart(now.d.zens[0], now.d.az, before.d.zens[0], before.d.az)
  /// C27, of the specified algorithms: `before` is the same sun a moment earlier
  val continuous = age == 0 or (
    iabs(deg(now.e.dec - before.e.dec)) <= mostDec(alg, before.t, now.t) and
    iabs(now.e.eot - before.e.eot) <= mostEot(alg, before.t, now.t) and
    iabs(now.e.ecf - before.e.ecf) <= mostEcf(alg, before.t, now.t) and
    turned <= mostAngle(alg, before.t, now.t) + 2000000000 and turned >= leastAngle(alg, before.t, now.t) - 2000000000)
  /// C26, of the specified algorithms: `before` is nrel's sun at the same instant
  val agree = alg == 3 or age == 0 or (
    before.t == now.t and
    iabs(deg(now.e.dec - before.e.dec)) <= farDec(alg) and
    iabs(now.e.eot - before.e.eot) <= farEot(alg) and
    iabs(now.e.ecf - before.e.ecf) <= farEcf(alg) and
    deg(turned) <= farAngle(alg))
}
