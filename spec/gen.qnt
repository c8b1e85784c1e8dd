/// Scenario generator: instants and places, by classes that stress calendars,
/// poles, the date line, the horizon, and the overhead sun.  A behaviour of this
/// machine is a sequence of cases, replayed into the implementation.
module gen {
  import fixed.* from "./fixed"
  import civil.* from "./civil"
  import gen_rules.* from "./gen_rules"

  const ALG: int        // 0 psa, 1 soltrack, 2 iqbal, 3 nrel: whose sun is aimed at

  type Case = { tc: int, lc: int, t: int, lat: int, lon: int, u: int, v: int }
  var c: Case

  action init = { c' = { tc: 0, lc: 0, t: 0, lat: 0, lon: 0, u: 0, v: 0 } }
  action step = {
    nondet tc = 0.to(9).oneOf()
    nondet lc = 0.to(9).oneOf()
    nondet u = 0.to(1000000000000).oneOf()
    nondet v = 0.to(1000000000000).oneOf()
    nondet p = 0.to(1000000000000).oneOf()
    nondet q = 0.to(1000000000000).oneOf()
    val t = instant(tc, u, v)
    val w = place(ALG, lc, t, p, q)
    c' = { tc: tc, lc: lc, t: t, lat: clampLat(w._1), lon: w._2, u: u, v: v }
  }
  /// instants of all the years for which nrel is documented
  action far = {
    nondet tc = 10.to(12).oneOf()
    nondet lc = 0.to(9).oneOf()
    nondet u = 0.to(1000000000000).oneOf()
    nondet v = 0.to(1000000000000).oneOf()
    nondet p = 0.to(1000000000000).oneOf()
    nondet q = 0.to(1000000000000).oneOf()
    val t = instant(tc, u, v)
    val w = place(ALG, lc, t, p, q)
    c' = { tc: tc, lc: lc, t: t, lat: clampLat(w._1), lon: w._2, u: u, v: v }
  }
  /// sanity of the machine itself
  val inDomain = c.lat >= -90 * D1 and c.lat <= 90 * D1 and c.lon >= -180 * D1 and c.lon < 180 * D1
    and (if (c.tc < 10) c.t >= unixOf(1699, 12, 30, 0, 0, 0) and c.t < unixOf(2251, 1, 4, 0, 0, 0)
         else c.t >= unixOf(-2000, 1, 1, 0, 0, 0) and c.t < unixOf(6000, 1, 4, 0, 0, 0))
}
module gen0 { import gen(ALG = 0).* }
module gen1 { import gen(ALG = 1).* }
module gen2 { import gen(ALG = 2).* }
module gen3 { import gen(ALG = 3).* }
