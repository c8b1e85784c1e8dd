/// Days of the specified sun: it is on the horizon when the sunrise equation says (C28)
module horizon {
  import fixed.* from "./fixed"
  import civil.* from "./civil"
  import sky.* from "./sky"
  import algos.* from "./algos"
  import derived.* from "./derived"
  import motion_rules.* from "./motion_rules"
  import horizon_rules.* from "./horizon_rules"
  import gen_rules.* from "./gen_rules"

  type Event = { t: int, el: int, later: int }      // an event, the elevation then, and that of ten minutes later
  type Day = { alg: int, t: int, lat: int, lon: int, polar: int, steep: int, rise: Event, set: Event }
  var day: Day

  pure def elevation(a: int, t: int, lat: int, lon: int): int = HALFPI - dir(a, eph(a, t), lat, lon, false).zens[0]
  pure def eventAt(a: int, tst: int, eot: int, lat: int, lon: int): Event = {
    pure val t = fdiv(tst - solarShift(eot, lon), 1000000000)
    { t: t, el: elevation(a, t, lat, lon), later: elevation(a, t + 600, lat, lon) }
  }
  pure val NONE: Event = { t: 0, el: 0, later: 0 }
  pure def dayOf(a: int, t: int, lat: int, lon: int): Day = {
    pure val e = eph(a, t)
    pure val phi = rad(lat)
    pure val p = polar(phi, e.dec)
    pure val none = { alg: a, t: t, lat: lat, lon: lon, polar: p, steep: 0, rise: NONE, set: NONE }
    if (p != 0) none
    else {
      pure val h = acos_(quo(horizonNum(phi, e.dec), horizonDen(phi, e.dec)))
      pure val noon = noonOf(trueSolarTime(t * 1000000000, e.eot, lon))
      pure val half = rdiv(h * DAYNS, TWOPI)
      { ...none, steep: steepness(phi, e.dec, h),
        rise: eventAt(a, noon - half, e.eot, lat, lon), set: eventAt(a, noon + half, e.eot, lat, lon) }
    }
  }
  action init = day' = dayOf(0, 0, 0, 0)
  action step = {
    nondet tc = 0.to(9).oneOf()
    nondet lc = Set(0, 2, 3, 4, 5, 9).oneOf()
    nondet u = 0.to(1000000000000).oneOf()
    nondet v = 0.to(1000000000000).oneOf()
    nondet p = 0.to(1000000000000).oneOf()
    nondet q = 0.to(1000000000000).oneOf()
    nondet a = 0.to(3).oneOf()
    val t = instant(tc, u, v)
    val w = place(0, lc, t, p, q)
    // most places between the polar circles
    day' = dayOf(a, t, if (q % 3 == 0) clampLat(w._1) else clampLat(w._1 * 7 / 10), w._2)
  }
  val rises = day.polar != 0 or (
    iabs(day.rise.el) <= mostElevation(day.alg, day.t, day.rise.t) and
    iabs(day.set.el) <= mostElevation(day.alg, day.t, day.set.t) and
    (day.steep <= TELLING or (day.rise.later > day.rise.el and day.set.later < day.set.el)))
}
