/// Scenario machine for time zones: instants close to (and far from) the
/// changes of civil time, and ways of writing them.
module zones {
  import fixed.* from "./fixed"
  import civil.* from "./civil"

  /// zone; form: how the instants are written; t: Unix seconds; sub: microseconds
  type Instant = { zone: int, form: int, t: int, sub: int, lat: int, lon: int }
  var c: Instant
  pure val NFORMS: int = 16
  pure val AROUND: List[int] = [0, -1, 1, -1800, 1800, -3599, 3600, 3599, -3600, -5400, 5400, 7199, -7200, -7201, 10800, 59]

  /// the changes of civil time of a zone in a year (UTC instants); all zones
  /// are probed at somebody's changes
  pure def change(z: int, y: int, k: int): int =
    if (z == 2) (if (k == 0) nthSunday(y, 3, 2) * 86400 + 7200 + 18000 else nthSunday(y, 11, 1) * 86400 + 3600 + 18000)
    else if (z == 5) (if (k == 0) nthSunday(y, 3, 2) * 86400 + 7200 + 12600 else nthSunday(y, 11, 1) * 86400 + 3600 + 12600)
    else if (z == 4) (if (k == 0) nthSunday(y, 4, 1) * 86400 + 7200 - 39600 else nthSunday(y, 10, 1) * 86400 + 7200 - 37800)
    else (if (k == 0) lastSunday(y, 3) * 86400 + 3600 else lastSunday(y, 10) * 86400 + 3600)

  pure def instantIn(z: int, k: int, u: int, v: int): int = {
    pure val y = 2012 + u % 25
    if (z == 13) (if (k <= 1) MONROVIA + AROUND[v % length(AROUND)] else unixOf(1920, 1, 1, 0, 0, 0) + v % 1704000000)
    else if (k <= 1) change(z, y, k) + AROUND[v % length(AROUND)]
    else if (k == 2) change(z, y, u / 100 % 2) + v % 172800 - 86400
    else if (k == 3) unixOf(y, 1 + (u / 100) % 12, 1, 0, 0, 0) - utcOffset(z, unixOf(y, 1 + (u / 100) % 12, 1, 0, 0, 0)) + AROUND[v % length(AROUND)]
    else unixOf(2012, 1, 1, 0, 0, 0) + v % 757382400
  }

  action init = { c' = { zone: 0, form: 0, t: 0, sub: 0, lat: 0, lon: 0 } }
  action step = {
    nondet zone = 0.to(ALLZONES - 1).oneOf()
    nondet form = 0.to(NFORMS - 1).oneOf()
    nondet k = 0.to(5).oneOf()
    nondet u = 0.to(1000000000).oneOf()
    nondet v = 0.to(1000000000).oneOf()
    nondet sub = Set(0, 0 + 1, 499999, 500000, 999999, 123456).oneOf()
    c' = { zone: zone, form: form, t: instantIn(zone, k, u, v), sub: if (u % 3 == 0) sub else 0,
           lat: u % 181 - 90, lon: v % 360 - 180 }
  }
  /// the model of civil time is coherent: offsets are those of the zone, and
  /// wall times that are a change apart map back to the same instant
  val offsetsSane = {
    val o = utcOffset(c.zone, c.t)
    o >= -43200 and o <= 50400 and (o % 900 == 0 or c.zone >= NZONES) and
    (utcOffset(c.zone, c.t - 86400 * 45) != o implies Set(1, 2, 4, 5, 11, 13).contains(c.zone))
  }
}
