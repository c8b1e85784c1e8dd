/// What a solar chart shows (C31): curves, each of them a list of instants at a place.
module chart_rules {
  import fixed.* from "./fixed"
  import civil.* from "./civil"
  import cli_rules.* from "./cli_rules"

  /// zone; t: the instant of the user (Unix seconds) if there is one, else some instant of the year of the chart;
  /// lat4, lon4: units of 1e-4 degrees; polar: 0, 1; user: 0, 1; day, month, hour, minute: what is asked for in place
  /// of the defaults (0, 0, -1, 0: the defaults)
  type Chart = { zone: int, t: int, lat4: int, lon4: int, polar: int, user: int, day: int, month: int, hour: int, minute: int }
  /// the clocks of a zone at w0, w0 + step, .. (n of them), but for those in skip, which they show never or twice
  type Curve = { kind: int, zone: int, w0: int, step: int, n: int, skip: List[int] }
  pure val SOLSTICE: int = 0
  pure val HOUR: int = 1
  pure val DAY: int = 2
  pure val USERDAY: int = 3
  pure val USERHOUR: int = 4
  pure val USERSUN: int = 5

  pure def wallOf(q: Chart): int = q.t + utcOffset(q.zone, q.t)
  pure def yearOf(q: Chart): int = civilOf(wallOf(q)).y
  pure def daysIn(y: int): int = if (isLeap(y)) 366 else 365

  pure def offsetAt(z: int, w: int): int = utcOffset(z, w - utcOffset(z, w))
  /// the days (at midnight, wall time) in which clocks are changed
  pure def changeDays(z: int, y: int): List[int] = range(1, 13).foldl([], (l, m) => {
    pure val a = unixOf(y, m, 1, 0, 0, 0)
    pure val b = if (m == 12) unixOf(y + 1, 1, 1, 0, 0, 0) else unixOf(y, m + 1, 1, 0, 0, 0)
    if (offsetAt(z, a) == offsetAt(z, b)) l
    else range(0, (b - a) / 86400).foldl(l, (k, d) =>
      if (offsetAt(z, a + 86400 * d) == offsetAt(z, a + 86400 * (d + 1))) k else k.append(a + 86400 * d))
  })
  pure def dayCurve(kind: int, z: int, w0: int, step: int, ch: List[int]): Curve = {
    pure val n = 86400 / step
    { kind: kind, zone: z, w0: w0, step: step, n: n,
      skip: if (ch.select(d => d == w0) == []) [] else range(0, n).select(i => instants(z, w0 + i * step).size() != 1) }
  }
  pure def hourCurve(z: int, y: int, sod: int, ch: List[int]): Curve = {
    pure val w0 = unixOf(y, 1, 1, 0, 0, 0) + sod
    { kind: HOUR, zone: z, w0: w0, step: 86400, n: daysIn(y),
      skip: ch.select(d => instants(z, d + sod).size() != 1).foldl([], (l, d) => l.append((d + sod - w0) / 86400)) }
  }
  pure def points(c: Curve): int = c.n - length(c.skip)
  /// the instant of a point of a curve
  pure def instantAt(c: Curve, k: int): int = {
    pure val i = c.skip.foldl(k, (j, d) => if (d <= j) j + 1 else j)
    pure val w = c.w0 + i * c.step
    if (c.zone == 0) w else w - offsetAt(c.zone, w)
  }

  pure def hours(q: Chart): List[int] = if (q.hour < 0) range(0, 24) else [q.hour]
  pure def months(q: Chart): List[int] = if (q.month == 0) [1, 2, 3, 4, 5, 7, 8, 9, 10, 11] else [q.month]
  /// days (month, day) with a line of their own
  pure def days(q: Chart): Set[(int, int)] =
    months(q).foldl(Set((6, 21), (12, 21)), (s, m) => s.union(Set((m, if (q.day == 0) 15 else q.day))))
  pure def curves(q: Chart): List[Curve] = {
    pure val z = q.zone
    pure val y = yearOf(q)
    pure val ch = changeDays(z, y)
    pure val c0 = [dayCurve(SOLSTICE, z, unixOf(y, 6, 21, 0, 0, 0), 120, ch), dayCurve(SOLSTICE, z, unixOf(y, 12, 21, 0, 0, 0), 120, ch)]
    pure val c1 = hours(q).foldl(c0, (l, h) => l.append(hourCurve(z, y, h * 3600 + q.minute * 60, ch)))
    pure val c2 = days(q).fold(c1, (l, d) => l.append(dayCurve(DAY, z, unixOf(y, d._1, d._2, 0, 0, 0), 300, ch)))
    if (q.user == 0) c2
    else {
      pure val w = wallOf(q)
      pure val yu = civilOf(q.t).y
      c2.append(dayCurve(USERDAY, z, w - w % 86400, 300, ch))
        .append({ kind: USERHOUR, zone: 0, w0: unixOf(yu, 1, 1, 0, 0, 0) + q.t % 86400, step: 86400, n: daysIn(yu), skip: [] })
        .append({ kind: USERSUN, zone: 0, w0: q.t, step: 1, n: 1, skip: [] })
    }
  }
}
