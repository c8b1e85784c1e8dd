/// Instants and places, by classes that stress calendars, poles, the date line,
/// the horizon, and the overhead sun.
module gen_rules {
  import fixed.* from "./fixed"
  import civil.* from "./civil"
  import sky.* from "./sky"
  import psa.* from "./psa"
  import soltrack.* from "./soltrack"
  import iqbal.* from "./iqbal"
  import nrel.* from "./nrel"

  pure val NANO: int = 1000000000               // degrees: scale 10^18; NANO = 1e-9 deg
  pure val D1: int = S
  pure val EDGES: List[int] = [0, -1, 1, -2, 59, 60, -60, -61, 3599, 3600, -3600, 43200, -43200,
    86399, 86400, -86400, 7, -7, 1800, -43201]
  pure val CENT: List[int] = [1700, 1800, 1900, 2000, 2100, 2200, 2004, 2024, 2023, 2096, 2104, 1968]
  pure val TINY: List[int] = [0, 1, 10, 1000, 100000, 1000000, 10000000, 100000000, 500000000, 3000000000]  // 1e-9 deg
  pure val ELEVS: List[int] = [-833350, -833346, -833300, -840000, -820000, -5110000, -5111500, -5112000,
    -5090000, -4000000, -6000000, -18000000, -1000000, 0, 10000, -10000, 500000, 1000000, 5000000, 15000000,
    45000000, 85000000, -45000000, -85000000, -1500000, 3000000]                                  // 1e-6 deg
  /// around the threshold of refraction (-1.4545e-2 rad below the horizon, parallax included)
  pure val NEAR: List[int] = [320, 400, 500, 700, 1000, 1500, 2500, 4000, 7000, 12000, 25000, 60000]
  pure def elevationOf(lc: int, v: int): int =
    if (lc == 8) ELEVS[v % length(ELEVS)] else -830923 + (if (v / 12 % 2 == 0) NEAR[v % 12] else -NEAR[v % 12])

  /// u, v: arbitrary naturals
  pure def instant(tc: int, u: int, v: int): int =
    if (tc == 2) unixOf(2020, 1, 1, 0, 0, 0) + u % 946684800
    else if (tc == 3) unixOf(1700 + u % 550, 1 + (u / 550) % 12, 1, 0, 0, 0) + EDGES[v % length(EDGES)]
    else if (tc == 4) unixOf(CENT[u % length(CENT)], [1, 2, 3, 12][(u / 100) % 4], 1, 0, 0, 0) + EDGES[v % length(EDGES)]
    else if (tc == 5) unixOf(1700 + 4 * (u % 138), 2, 28, 0, 0, 0) + v % 259200
    else if (tc == 6) v % 345600 - 172800
    else if (tc == 7) unixOf(1700 + u % 550, [3, 6, 9, 12][(u / 1000) % 4], 21, 0, 0, 0) + v % 259200 - 86400
    else if (tc == 8) (u % 200900 - 98600) * 86400 + (if (v % 2 == 0) 43200 else 0) + EDGES[(v / 2) % length(EDGES)]
    else if (tc == 9) unixOf(1700 + u % 551, 12, 31, 0, 0, 0) + v % 172800 - (if (u % 551 == 550) 86400 else 0)
    // the years for which nrel is documented: centuries, ends of years, any
    else if (tc == 10) unixOf(-2000 + u % 8000, 1, 1, 0, 0, 0) + v % 31536000
    else if (tc == 11) unixOf(-2000 + 100 * (u % 80), [1, 2, 3, 12][(u / 100) % 4], [1, 28, 1, 31][(u / 100) % 4], 0, 0, 0) + v % 259200
    else if (tc == 12) unixOf(-2000 + u % 7999 + 1, 1, 1, 0, 0, 0) + EDGES[v % length(EDGES)]
    else unixOf(1700, 1, 1, 0, 0, 0) + u % 17356464000

  pure def ephOf(a: int, t: int): Eph =
    if (a == 0) ephPSA(t) else if (a == 1) ephSoltrack(t) else if (a == 2) ephIqbal(t) else ephNREL(t)

  /// longitude to [-180, 180), degrees
  pure def wrapLon(x: int): int = fmod(x + 180 * D1, 360 * D1) - 180 * D1
  pure def clampLat(x: int): int = clamp(x, -90 * D1, 90 * D1)

  pure def place(a: int, lc: int, t: int, u: int, v: int): (int, int) = {
    pure val ulat = (u % 180000000001) * NANO - 90 * D1
    pure val ulon = (v % 360000000000) * NANO - 180 * D1
    pure val s = if (u % 2 == 0) 1 else -1
    pure val tiny = TINY[(u / 2) % length(TINY)] * NANO
    if (lc == 1) (s * (90 * D1 - tiny), ulon)
    else if (lc == 2) (ulat, wrapLon(-180 * D1 + s * TINY[(v / 7) % length(TINY)] * NANO))
    else if (lc == 3) (s * tiny, if (v % 3 == 0) 0 else ulon)
    else if (lc == 4) (s * ([66560000000, 23440000000, 66000000000, 67400000000][(v / 3) % 4] * NANO) + tiny, ulon)
    else if (lc == 5) ((u % 181 - 90) * D1, (v % 360 - 180) * D1)
    else if (lc == 6 or lc == 7) {
      // the sun overhead, or underfoot, but for a tiny offset
      pure val e = ephOf(a, t)
      pure val sl = -deg(e.gha)
      pure val dl = TINY[(v / 11) % 7] * NANO * (if (v % 2 == 0) 1 else -1)
      pure val k = if (lc == 6) 0 else 1
      (clampLat((if (k == 0) deg(e.dec) else -deg(e.dec)) + s * TINY[(u / 2) % 7] * NANO),
       wrapLon(sl + k * 180 * D1 + dl))
    }
    else if (lc >= 8) {
      // the sun at a chosen elevation
      pure val e = ephOf(a, t)
      pure val el = rad(elevationOf(lc, v) * 1000000000000)
      pure val phi = rad(ulat)
      pure val num = sin_(el) - mul(sin_(phi), sin_(e.dec))
      pure val den = mul(cos_(phi), cos_(e.dec))
      if (den > 0 and iabs(num) < den) {
        pure val h = acos_(quo(num, den))
        (ulat, wrapLon(deg((if (v % 2 == 0) h else -h) - e.gha)))
      } else {
        // on the meridian, at the latitude that gives that elevation
        pure val z = HALFPI - el
        (clampLat(if (iabs(e.dec + s * z) <= HALFPI) deg(e.dec + s * z)
                  else if (iabs(e.dec - s * z) <= HALFPI) deg(e.dec - s * z) else s * 90 * D1),
         wrapLon(-deg(e.gha)))
      }
    }
    else (ulat, ulon)
  }
}
