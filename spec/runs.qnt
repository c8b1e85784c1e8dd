/// Histories of benchmarks in one place of the disk (C34)
module runs {
  import fixed.* from "./fixed"
  import runs_rules.* from "./runs_rules"
  var kept: Set[Site]
  var last: Site
  var event: { site: Site, net: int, given: bool, sent: int }
  var age: int
  pure val NONE: Site = { year: 0, lat6: 0, lon6: 0 }
  action init = all { kept' = Set(), last' = NONE, event' = { site: NONE, net: 0, given: false, sent: 0 }, age' = 0 }
  pure def wrap(lon6: int): int = if (lon6 >= 180000000) lon6 - 360000000 else lon6
  /// where to go from here: the same again, across the equator or Greenwich, next door, another year, the axes, the ends, anywhere
  pure def to_(k: int, p: Site, u: int, v: int): Site =
    if (k == 0) p
    else if (k == 1) { ...p, lat6: -p.lat6 }
    else if (k == 2) { ...p, lon6: wrap(-p.lon6) }
    else if (k == 3) { ...p, lat6: clamp(p.lat6 + 1 + u % 40, -90000000, 90000000) }
    else if (k == 4) { ...p, lon6: wrap(p.lon6 + 1 + u % 40) }
    else if (k == 5) { ...p, year: p.year + 1 }
    else {
      year: 1990 + (u + v) % 50,
      lat6: if (k == 6) 0 else if (k == 7) (if (u % 2 == 0) 90000000 else -90000000) else if (k == 8) u % 2001 - 1000 else u % 180000001 - 90000000,
      lon6: if (k == 9) 0 else if (k == 7) -180000000 + v % 2 else if (k == 8) v % 2001 - 1000 else v % 360000000 - 180000000
    }
  /// five runs each
  action step = {
    nondet k = 0.to(12).oneOf()
    nondet net = Set(0, 1, 2).oneOf()
    nondet bad = 0.to(2).oneOf()
    nondet u = 0.to(1000000000).oneOf()
    nondet v = 0.to(1000000000).oneOf()
    val fresh = age % 5 == 0
    val ks = if (fresh) Set() else kept
    val s = to_(if (fresh and k < 6) k + 6 else k, last, u, v)
    val n = if (bad == 0) net else FINE
    all {
      event' = { site: s, net: n, given: served(ks, s, n), sent: requests(ks, s) },
      kept' = keeps(ks, s, n), last' = s, age' = age + 1
    }
  }
  /// what was given is kept; nothing is requested for what is kept; a failure is of the network
  val sane = age == 0 or and {
    event.given == kept.contains(event.site),
    event.given or event.net != FINE,
    event.sent == 0 implies event.given,
    iabs(event.site.lat6) <= 90000000, event.site.lon6 >= -180000000, event.site.lon6 < 180000000
  }
}
