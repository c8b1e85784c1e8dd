/// JPL Horizons (C25): requests, files in its layout, and the store of whole years
module jpl_rules {
  import fixed.* from "./fixed"
  import civil.* from "./civil"

  /// minutes since 1970; step in minutes; longitude and latitude in 1e-6 degrees, elevation in metres
  type Ask = { start: int, stop: int, step: int, lon6: int, lat6: int, elev: int }
  pure val MAXLINES: int = 90024
  pure def lines(a: Ask): int = if (a.stop < a.start) 0 else (a.stop - a.start) / a.step + 1
  pure def allowed(a: Ask): bool = lines(a) <= MAXLINES

  /// a line of a reply: seconds since 1970; azimuth (from north, clockwise) and elevation in 1e-6 degrees;
  /// distance in 1e-12 astronomical units; which of the marks of the sun and the moon it has
  type Line = { t: int, az: int, el: int, r: int, mark: int }
  type Row = { t: int, az: int, zen: int, ecf: int }
  pure def rowOf(l: Line): Row = {
    t: l.t,
    az: (l.az - 180000000) * 1000000000000,
    zen: (90000000 - l.el) * 1000000000000,
    ecf: quo(S, mul(l.r * 1000000, l.r * 1000000))
  }

  /// the store: the monthly replies and the whole years there are, and what a
  /// load does when the network fails, or replies with an error, in the k-th request (0: it does not)
  type Key = { year: int, site: int }
  type Store = { months: Set[{ key: Key, month: int }], whole: Set[Key] }
  pure val EMPTY: Store = { months: Set(), whole: Set() }
  pure def missing(s: Store, k: Key): List[int] =
    range(1, 13).select(m => not(s.months.contains({ key: k, month: m })))
  /// does the load give the year, or does it raise?
  pure def gives(s: Store, k: Key, failAt: int): bool =
    s.whole.contains(k) or failAt == 0 or failAt > length(missing(s, k))
  pure def load(s: Store, k: Key, failAt: int): Store =
    if (s.whole.contains(k)) s
    else if (gives(s, k, failAt)) { ...s, whole: s.whole.union(Set(k)) }
    else { ...s, months: s.months.union(missing(s, k).slice(0, failAt - 1).foldl(Set(), (acc, m) => acc.union(Set({ key: k, month: m })))) }
  /// rows of a year, one every 12 minutes
  pure def rowsOf(year: int): int = 120 * (if (isLeap(year)) 366 else 365)
}
