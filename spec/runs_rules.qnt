/// What a run of the benchmark does (C34): the replies it keeps, how the packages' answers become comparable, and what it prints
module runs_rules {
  import fixed.* from "./fixed"
  import bench_rules.* from "./bench_rules"

  /// year and site (1e-6 degrees)
  type Site = { year: int, lat6: int, lon6: int }
  /// the network works, is down, or Horizons replies with an error
  pure val FINE: int = 0
  pure val DOWN: int = 1
  pure val ERROR: int = 2
  pure def served(kept: Set[Site], k: Site, net: int): bool = kept.contains(k) or net == FINE
  pure def requests(kept: Set[Site], k: Site): int = if (kept.contains(k)) 0 else 1
  pure def keeps(kept: Set[Site], k: Site, net: int): Set[Site] = if (served(kept, k, net)) kept.union(Set(k)) else kept

  /// methods: four of pvlib, one of sg2, seven of the library
  pure val METHODS: int = 12
  pure val PVLIB: int = 4
  pure val SG2: int = 4
  /// of which these are compared in irradiance: sg2, nrel, soltrack, psa, iqbal (numexpr)
  pure val BRIGHT: List[int] = [4, 5, 6, 8, 10]
  type Angles = { zen: int, az: int, ecf: int }
  /// a reply's line: azimuth from north, elevation (1e-6 degrees), distance (1e-12 au)
  pure def ofReply(az6: int, el6: int, r12: int): Angles =
    { zen: (90000000 - el6) * 1000000000000, az: (az6 - 180000000) * 1000000000000, ecf: quo(S, mul(r12 * 1000000, r12 * 1000000)) }
  /// pvlib: zenith and azimuth from north, degrees; no distance. sg2: elevation and azimuth from north, radians; distance.
  /// The library: zenith, azimuth from south, degrees; 1/distance squared
  pure def ofPackage(m: int, a: int, b: int, c: int): Angles =
    if (m < PVLIB) { zen: a, az: b - 180 * S, ecf: 0 }
    else if (m == SG2) { zen: 90 * S - deg(a), az: deg(b) - 180 * S, ecf: quo(S, mul(c, c)) }
    else { zen: a, az: b, ecf: c }
  pure def knows(m: int, variable: int): bool = variable != 2 or m >= PVLIB
  /// seconds of arc, and thousandths
  pure def printed(variable: int, x: int): int = if (variable == 2) 1000 * x else 3600 * x
}
