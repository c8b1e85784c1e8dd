/// Somebody who asks for solar charts (C31)
module chart {
  import fixed.* from "./fixed"
  import civil.* from "./civil"
  import cli_rules.* from "./cli_rules"
  import chart_rules.* from "./chart_rules"
  import zones.* from "./zones"
  var q: Chart
  var lines: List[Curve]
  /// what the user writes
  var w: int
  pure val NONE: Chart = { zone: 0, t: 0, lat4: 0, lon4: 0, polar: 0, user: 0, day: 0, month: 0, hour: -1, minute: 0 }
  action initChart = all { q' = NONE, lines' = [], w' = 0, init }
  action order = {
    nondet zone = 0.to(NZONES - 1).oneOf()
    nondet k = 0.to(5).oneOf()
    nondet u = 0.to(1000000000).oneOf()
    nondet v = 0.to(1000000000).oneOf()
    nondet y = 0.to(8).oneOf()
    nondet a = 0.to(1000000000).oneOf()
    val t0 = instantIn(zone, k, u, v)
    // the user writes a time of the clock: one that the clocks show once
    val t = if (instants(zone, t0 + utcOffset(zone, t0)).size() == 1) t0 else t0 + 10800
    val lat4 = if (y == 0) 899999 else if (y == 1) -899999 else if (y == 2) 0 else if (y == 3) 660000 + v % 60000
               else if (y == 4) -(650000 + v % 60000) else if (y == 5) 10000 * (v % 179 - 89) else v % 1799999 - 899999
    val lon4 = if (y == 6) -1800000 else if (y == 7) 1799999 else u % 3600000 - 1800000
    val r = { zone: zone, t: t, lat4: lat4, lon4: lon4, polar: a % 2, user: if (a / 2 % 8 == 0) 0 else 1,
              day: if (a / 16 % 2 == 0) 0 else 1 + a / 32 % 28, month: if (a / 1000 % 2 == 0) 0 else 1 + a / 2000 % 12,
              hour: if (a / 100000 % 2 == 0) -1 else a / 200000 % 24, minute: if (a / 10000000 % 2 == 0) 0 else 5 * (a / 20000000 % 12) }
    all { q' = r, lines' = curves(r), w' = wallOf(r), c' = c }
  }
  /// the sun of the user is on the lines of his day and of his hour; clocks show what the line is of, at all of its points
  val drawn = {
    lines.indices().forall(i => {
      val l = lines[i]
      points(l) > 0 and
      and {
        l.kind == USERDAY implies iabs(instantAt(l, 0) - q.t) <= 90000 and iabs(instantAt(l, points(l) - 1) - q.t) <= 90000,
        l.kind == USERHOUR implies (q.t - instantAt(l, 0)) % 86400 == 0 and q.t >= instantAt(l, 0) and q.t <= instantAt(l, points(l) - 1),
        l.kind == USERSUN implies instantAt(l, 0) == q.t,
        Set(0, points(l) / 2, points(l) - 1).forall(k => {
          val t = instantAt(l, k)
          val x = t + utcOffset(l.zone, t)
          (x - l.w0) % l.step == 0 and instants(l.zone, x).size() == 1
        }),
        l.kind == HOUR implies points(l) >= 363
      }
    })
  }
}
