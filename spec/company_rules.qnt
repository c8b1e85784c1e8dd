/// Requests by how their instants and places relate to one another: within one hour, day, month or year, evenly
/// spaced, in order or not, repeated; one place, one latitude, mirrored, close together, on a line.
module company_rules {
  import fixed.* from "./fixed"
  import civil.* from "./civil"
  import gen_rules.* from "./gen_rules"

  type Case = { tc: int, lc: int, t: int, lat: int, lon: int, u: int, v: int }
  pure val NSPANS: int = 8
  pure val NORDERS: int = 6
  pure val NPLACES: int = 10
  pure val SIZES: List[int] = [2, 3, 4, 5, 6, 8, 12]
  pure val STEPS: List[int] = [1, 60, 600, 900, 3600, 10800, 86400, 604800, 2592000, 31536000]

  /// the k-th of the numbers that follow from u
  pure def mix(u: int, k: int): int = {
    pure val a = (u + 1) * 6364136223846793005 + (k + 1) * 1442695040888963407
    pure val b = (a / 8191 + a) % 2305843009213693951
    (b * b / 1048576 + b * 2862933555777941757) % 1000000000039
  }
  /// the period [start, end) of the class that an instant belongs to
  pure def periodOf(span: int, t: int): (int, int) = {
    pure val c = civilOf(t)
    if (span == 0) (t, t + 1)
    else if (span == 1) (t - c.s, t - c.s + 60)
    else if (span == 2) (t - c.s - 60 * c.mi, t - c.s - 60 * c.mi + 3600)
    else if (span == 3) (86400 * fdiv(t, 86400), 86400 * fdiv(t, 86400) + 86400)
    else if (span == 4) (unixOf(c.y, c.m, 1, 0, 0, 0), if (c.m == 12) unixOf(c.y + 1, 1, 1, 0, 0, 0) else unixOf(c.y, c.m + 1, 1, 0, 0, 0))
    else if (span == 5) (unixOf(c.y, 1, 1, 0, 0, 0), unixOf(c.y + 1, 1, 1, 0, 0, 0))
    else if (span == 6) (unixOf(c.y - c.y % 4, 1, 1, 0, 0, 0), unixOf(c.y - c.y % 4 + 4, 1, 1, 0, 0, 0))
    else (unixOf(1700, 1, 1, 0, 0, 0), unixOf(2250, 1, 1, 0, 0, 0))
  }
  pure def sorted(l: List[int]): List[int] = l.foldl([], (s, x) =>
    s.select(y => y <= x).append(x).concat(s.select(y => y > x)))
  pure def reversed(l: List[int]): List[int] = range(0, length(l)).foldl([], (s, k) => s.append(l[length(l) - 1 - k]))

  pure def instantsOf(span: int, order: int, n: int, t: int, u: int): List[int] = {
    pure val p = periodOf(span, t)
    if (order == 3 or order == 4) {
      // evenly spaced; half of them from the beginning of the period
      pure val step = STEPS[mix(u, 50) % (if (span < 3) 4 else length(STEPS))]
      pure val a = if (mix(u, 51) % 2 == 0) p._1 else t
      pure val b = if (t > 0) a - step * (n - 1) else a
      pure val l = range(0, n).foldl([], (s, k) => s.append(b + step * k))
      if (order == 3) l else reversed(l)
    } else {
      pure val l = range(0, n).foldl([], (s, k) => s.append(
        if (k == 0) t else if (order == 5 and k % 2 == 1) s[k - 1] else p._1 + mix(u, k) % (p._2 - p._1)))
      if (order == 1) sorted(l) else if (order == 2) reversed(sorted(l)) else l
    }
  }
  /// places; w: the first of them
  pure def placesOf(a: int, places: int, ts: List[int], w: (int, int), lc: int, u: int): List[(int, int)] =
    ts.indices().fold([], (l, i) => {
      pure val k = length(l)
      pure val x = mix(u, 100 + k)
      pure val y = mix(u, 200 + k)
      pure val e = (x % 2001 - 1000) * NANO * [1, 1000, 1000000][mix(u, 99) % 3]
      pure val step = [1, 5, 10][mix(u, 98) % 3] * D1 / [1, 4][mix(u, 97) % 2]
      l.append(
        if (k == 0 and places != 6 and places != 9) w
        else if (places == 1) w
        else if (places == 2) (w._1, place(a, 0, ts[k], x, y)._2)
        else if (places == 3) (place(a, 0, ts[k], x, y)._1, w._2)
        else if (places == 4) (if (k % 2 == 1) -w._1 else w._1, w._2)
        else if (places == 5) (clampLat(w._1 + e), wrapLon(w._2 - e))
        else if (places == 6) { pure val d = place(a, 0, ts[k], x, y)._1 (d, d) }
        else if (places == 7) (clampLat(w._1 + step * k), wrapLon(w._2 + step * k))
        else if (places == 8) (clampLat(w._1 - step * k), wrapLon(w._2 - step * k))
        else if (places == 9) ((if (u % 2 == 0) 90 else -90) * D1, place(a, 0, ts[k], x, y)._2)
        else place(a, (lc + k) % 10, ts[k], x, y))
    })
  pure def company(a: int, span: int, order: int, places: int, n: int, tc: int, lc: int, u: int, v: int): List[Case] = {
    pure val t = instant(tc, u, v)
    pure val ts = instantsOf(span, order, n, t, u)
    pure val w = place(a, lc, ts[0], mix(v, 1), mix(v, 2))
    pure val ws = placesOf(a, places, ts, w, lc, v)
    range(0, n).foldl([], (l, k) => l.append({ tc: tc, lc: lc, t: ts[k], lat: clampLat(ws[k]._1), lon: ws[k]._2, u: mix(u, 300 + k), v: mix(v, 300 + k) }))
  }
}
