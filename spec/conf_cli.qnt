/// C24: what the command line printed.
/// A record: [zone, w, lat4, lon4, alg, refr, tf, flaw, exit status, printed an ephemeris?,
///   number of rows, which rows.., day of week, day, month, year, h, m, s, abbreviation,
///   12 texts (length, characters): latitude longitude declination distance zenith elevation azimuth
///     sunrise UTC, sunset UTC, local sunrise, local sunset, equation of time;
///   what the library says: declination ecf zenith elevation azimuth eot; sunrise utc, sunset utc, local, local]
/// Or, of an instant that is not written on the clock of the zone, [MOMENT, what, first, last, exit status, instant shown,
///   zenith shown, zenith the library says]: it is between the first and the last. What: 0 now, 1 now, in an hour the clocks
///   repeat, 2 a time with an offset of its own (which may be refused, but not taken for another)
module conf_cli {
  import fixed.* from "./fixed"
  import civil.* from "./civil"
  import trace.* from "./trace"
  import cli_rules.* from "./cli_rules"

  pure val ROWS: List[int] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14]
  pure val ROWSUTC: List[int] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14]
  pure val DEGREE: List[int] = [176]
  pure val AU: List[int] = [32, 65, 85]

  pure val MOMENT: int = 99
  pure def judgeMoment(r: List[int]): Verdict =
    if (r[1] == 2 and r[4] != 0) PASS
    else PASS.clause("now, or the instant given", [r[1]], r[4] == 0 and r[2] <= r[5] and r[5] <= r[3], r[5], r[2])
             .clause("zenith of the instant", [r[1]], isNum(r[6]) and iabs(r[6] - r[7]) <= 60000000000000, r[6], r[7])

  pure def judge(rec: int): Verdict = {
   pure val r = unpack(rec)
   if (r[0] == MOMENT) judgeMoment(r) else {
    pure val q = { zone: r[0], w: r[1], lat4: r[2], lon4: r[3], alg: r[4], refr: r[5], tf: r[6], flaw: r[7] }
    pure val ok = accepted(q)
    pure val v0 = PASS.clause("accepted or refused", [], (r[8] == 0) == ok, r[8], if (ok) 0 else 1)
                      .clause("prints an ephemeris if accepted only", [], (r[9] == 1) == ok, r[9], if (ok) 1 else 0)
    if (not(ok) or r[8] != 0 or r[9] != 1) v0
    else {
      pure val n = r[10]
      pure val b = 11 + n
      pure val t = instantOf(q)
      pure val c = civilOf(q.w)
      pure val v1 = v0.clause("rows", [], r.slice(11, 11 + n) == (if (q.zone == 0) ROWSUTC else ROWS), n, 0)
        .clause("day of the week", [], r[b] == c.dow, r[b], c.dow)
        .clause("date", [], [r[b + 1], r[b + 2], r[b + 3]] == [c.d, c.m, c.y], r[b + 1], c.d)
        .clause("time", [], [r[b + 4], r[b + 5], r[b + 6]] == [c.h, c.mi, c.s], r[b + 4] * 3600 + r[b + 5] * 60 + r[b + 6], q.w % 86400)
        .clause("zone", [], r[b + 7] == abbreviation(q.zone, q.w - t), r[b + 7], abbreviation(q.zone, q.w - t))
      pure val texts = range(0, 12).foldl(([], b + 8), (a, k) =>
        (a._1.append(r.slice(a._2 + 1, a._2 + 1 + r[a._2])), a._2 + 1 + r[a._2]))
      pure val x = texts._2
      pure val s = texts._1
      pure val dist = if (isNum(r[x + 1]) and r[x + 1] > 0) quo(S, sqrt_(r[x + 1])) else 0
      v1.clause("latitude", [], shows(s[0], q.lat4 * 100000000000000, 4, DEGREE), 0, q.lat4)
        .clause("longitude", [], shows(s[1], q.lon4 * 100000000000000, 4, DEGREE), 0, q.lon4)
        .clause("declination", [], shows(s[2], r[x], 4, DEGREE), 0, r[x])
        .clause("distance", [], shows(s[3], dist, 4, AU), 0, dist)
        .clause("zenith", [], shows(s[4], r[x + 2], 4, DEGREE), 0, r[x + 2])
        .clause("elevation", [], shows(s[5], r[x + 3], 4, DEGREE), 0, r[x + 3])
        .clause("azimuth", [], shows(s[6], r[x + 4], 4, DEGREE), 0, r[x + 4])
        .clause("equation of time", [], showsMinutes(s[11], r[x + 5]), 0, r[x + 5])
        .clause("sunrise, UTC", [], showsClock(s[7], r[x + 6]), 0, r[x + 6])
        .clause("sunset, UTC", [], showsClock(s[8], r[x + 7]), 0, r[x + 7])
        .clause("sunrise, local", [], q.zone == 0 or showsClock(s[9], r[x + 8]), 0, r[x + 8])
        .clause("sunset, local", [], q.zone == 0 or showsClock(s[10], r[x + 9]), 0, r[x + 9])
    }
   }
  }
}
