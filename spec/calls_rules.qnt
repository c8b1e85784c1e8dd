/// What a call that does not say everything says (C36). A function has parameters, each with so many values that it may be given;
/// a call gives the first of them by position, and others by name, in any order.
module calls_rules {
  /// values: how many of each parameter are tried; fallback: which is meant if it is not said (-1: it must be said);
  /// placed: how many can be given by position; named: from which on they can be given by name
  type Function = { values: List[int], fallback: List[int], placed: int, named: int }
  type Named = { p: int, v: int }
  /// odd: 0 nothing 1 a name that does not exist 2 a parameter given by position and by name 3 one too many by position
  type Call = { fn: int, pos: List[int], kw: List[Named], odd: int }

  // times, latitude, longitude, algorithm (psa soltrack iqbal nrel), refraction (no yes), engine (numpy numexpr)
  pure val USECASE: Function = { values: [2, 2, 2, 4, 2, 2], fallback: [-1, -1, -1, 0, 1, 1], placed: 6, named: 0 }
  pure val FUNCTIONS: List[Function] = [
    USECASE, USECASE, USECASE,
    // eth: ISC (1361.1 1367 1000 1), am_correction (none and three others)
    { values: [4, 4], fallback: [0, 0], placed: 2, named: 0 },
    // airmass: parameterization (kasten_1965 kasten_and_young_1989 gueymard_2001 gueymard_2003)
    { values: [4], fallback: [3], placed: 1, named: 0 },
    // sunrise, sunset: units (deg rad tst utc local)
    { values: [5], fallback: [0], placed: 1, named: 0 },
    { values: [5], fallback: [0], placed: 1, named: 0 },
    // incidence: sfc_slope, sfc_azimuth
    { values: [3, 3], fallback: [-1, -1], placed: 2, named: 0 },
    // true_solar_time: times_utc, longitude; universal_time_coordinated: times_tst, longitude
    { values: [2, 3], fallback: [-1, -1], placed: 2, named: 0 },
    { values: [2, 3], fallback: [-1, -1], placed: 2, named: 0 },
    // the command `at`: time, latitude (36.949N), longitude (3.822W); --algorithm, --refraction, --timezone (UTC)
    { values: [3, 3, 3, 4, 2, 3], fallback: [-1, 0, 0, 0, 1, 0], placed: 3, named: 3 },
    // make_solar_chart: site_lat, site_lon, user_datetime (None), timezone (UTC), polar (no yes)
    { values: [2, 2, 2, 2, 2], fallback: [-1, -1, 0, 0, 1], placed: 5, named: 0 },
    // get_jpl_ephemeris: out_filename, start_time, stop_time, site_lon, site_lat, site_elev (0), step_size (1)
    { values: [2, 2, 2, 3, 3, 3, 3], fallback: [-1, -1, -1, -1, -1, 0, 0], placed: 7, named: 0 },
    // load_jpl_ephemeris: year (2024), site_lon (-3.822), site_lat (36.949)
    { values: [3, 3, 3], fallback: [0, 0, 0], placed: 3, named: 0 }]
  pure val AT: int = 10

  pure def arity(c: Call): int = length(FUNCTIONS[c.fn].values)
  pure def saysByName(c: Call, p: int): bool = c.kw.foldl(false, (a, x) => a or x.p == p)
  pure def says(c: Call, p: int): bool = p < length(c.pos) or saysByName(c, p)
  pure def complete(c: Call): bool = FUNCTIONS[c.fn].fallback.indices().forall(p => FUNCTIONS[c.fn].fallback[p] >= 0 or says(c, p))
  /// the value that each parameter has
  pure def meaning(c: Call): List[int] = range(0, arity(c)).foldl([], (a, p) => a.append(
    if (p < length(c.pos)) c.pos[p]
    else c.kw.foldl(FUNCTIONS[c.fn].fallback[p], (b, x) => if (x.p == p) x.v else b)))
  /// nrel has one engine
  pure def sensible(c: Call): bool = c.fn > 2 or not(meaning(c)[3] == 3 and meaning(c)[5] == 0)
  pure def answered(c: Call): bool = c.odd == 0 and complete(c) and sensible(c)
  /// the same, as far as it can be, by name
  pure def spelled(c: Call): Call = {
    pure val m = FUNCTIONS[c.fn].named
    { ...c,
      pos: if (length(c.pos) > m) c.pos.slice(0, m) else c.pos,
      kw: range(0, arity(c)).foldl([], (a, p) => if (p < m and p < length(c.pos)) a else if (meaning(c)[p] < 0 or (p < m)) a else a.append({ p: p, v: meaning(c)[p] })) }
  }
}
