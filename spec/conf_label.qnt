/// C13: the labels of a result.
/// Record: [uc, nt, ny, nx, times (ns) x nt, latitudes x ny, longitudes x nx,
///   nEcho, (expected, reported) x nEcho,
///   nVars, (var, rank, (dim, size) x rank, nTime, time coordinate (ns) x nTime,
///           nLat, latitude coordinate x nLat, nLon, longitude coordinate x nLon,
///           units, least and most of the range it declares, least and most of its values) x nVars]
/// uc 0 sites 1 regular_grid 2 transect; dims 0 time 1 location 2 latitude 3 longitude
/// a coordinate that is not there has size -1
module conf_label {
  import fixed.* from "./fixed"
  import trace.* from "./trace"

  pure val TIME: int = 0
  pure val LOC: int = 1
  pure val LAT: int = 2
  pure val LON: int = 3

  /// what a variable depends on: 0 latitude itself, 1 longitude itself,
  /// 2 time, 3 time and latitude, 4 time and longitude, 5 time and both (with the
  /// coordinates of the place), 6 the same (coordinates of the place optional)
  pure def dims(uc: int, dep: int): List[int] =
    if (uc == 2) [TIME]
    else if (uc == 0) (if (dep <= 1) [LOC] else if (dep == 2) [TIME] else [TIME, LOC])
    else if (dep == 0) [LAT] else if (dep == 1) [LON] else if (dep == 2) [TIME]
    else if (dep == 3) [TIME, LAT] else if (dep == 4) [TIME, LON] else [TIME, LAT, LON]

  /// units: 0 degrees 1 radians 2 minutes 3 none 4 W m-2 5 hours 6 true solar time 7 UTC 8 the time zone of the request
  /// 9 degrees north 10 degrees east 11 none said; by number of variable
  pure val UNITS: List[int] = [9, 10, 3, 2, 0, 0, 0, 0, 0, 0, 0, 3, 11, 3, 3, 4, 4, 0, 1, 6, 7, 8, 0, 1, 6, 7, 8, 5, 3, 3]

  pure def same(r: List[int], a: int, b: int, n: int): bool =
    range(0, n).foldl(true, (ok, i) => ok and r[a + i] == r[b + i])
  /// coordinates of single precision are as good
  pure def alike(r: List[int], a: int, b: int, n: int): bool =
    range(0, n).foldl(true, (ok, i) => ok and (r[a + i] == r[b + i] or
      (isNum(r[a + i]) and isNum(r[b + i]) and iabs(r[a + i] - r[b + i]) <= 1000000000)))

  pure def judge(rec: int): Verdict = {
    pure val r = unpack(rec)
    pure val uc = r[0]
    pure val nt = r[1]
    pure val ny = r[2]
    pure val nx = r[3]
    pure val t0 = 4
    pure val y0 = t0 + nt
    pure val x0 = y0 + ny
    pure val e0 = x0 + nx
    pure val v0 = range(0, r[e0]).foldl(PASS, (v, k) =>
      v.clause("echo of the request", [k], r[e0 + 1 + 2 * k] == r[e0 + 2 + 2 * k], r[e0 + 2 + 2 * k], r[e0 + 1 + 2 * k]))
    pure val b0 = e0 + 1 + 2 * r[e0]
    range(0, r[b0]).foldl((v0, b0 + 1), (acc, k) => {
      pure val b = acc._2
      // var = 100 * dependence + number
      pure val dep = r[b] / 100
      pure val want = dims(uc, dep)
      pure val rank = r[b + 1]
      pure val tb = b + 2 + (if (rank > 0 and rank < 100) 2 * rank else 0)
      pure val nT = r[tb]
      pure val yb = tb + 1 + imax(0, nT)
      pure val nY = r[yb]
      pure val xb = yb + 1 + imax(0, nY)
      pure val nX = r[xb]
      pure val ub = xb + 1 + imax(0, nX)
      pure val nextB = ub + 5
      pure val okRank = rank == length(want)
      pure val full = dep == 5
      pure val v1 = acc._1.clause("rank", [r[b]], okRank, rank, length(want))
        .clause("dimensions", [r[b]], okRank and range(0, length(want)).foldl(true, (ok, i) => ok and
           r[b + 2 + 2 * i] == want[i]), if (rank > 0 and rank < 100) r[b + 2] else -1, want[0])
        .clause("sizes", [r[b]], okRank and range(0, length(want)).foldl(true, (ok, i) => ok and
           r[b + 3 + 2 * i] == (if (want[i] == TIME) nt else if (want[i] == LON) nx else ny)), rank, 0)
        .clause("time coordinate", [r[b]],
           if (dep >= 2) nT == nt and same(r, tb + 1, t0, nt)
           else nT == -1 or (nT == nt and same(r, tb + 1, t0, nt)), nT, nt)
        .clause("latitude coordinate", [r[b]],
           if (nY == -1) not(full) else nY == ny and alike(r, yb + 1, y0, ny), nY, ny)
        .clause("longitude coordinate", [r[b]],
           if (nX == -1) not(full) else nX == nx and alike(r, xb + 1, x0, nx), nX, nx)
        .clause("units", [r[b]], r[ub] == UNITS[r[b] % 100], r[ub], UNITS[r[b] % 100])
        .clause("values in the range that is declared", [r[b]], r[ub + 3] == NAN or
           ((r[ub + 1] == NAN or r[ub + 1] - 10000000000000 <= r[ub + 3]) and (r[ub + 2] == NAN or r[ub + 4] <= r[ub + 2] + 10000000000000)),
           r[ub + 3], r[ub + 4])
      (v1, nextB)
    })._1
  }
}
