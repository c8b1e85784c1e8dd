/// C31: what is drawn in a solar chart.
/// Record: [zone, t, lat4, lon4, polar, user, day, month, hour, minute, drawn?, saved? (-1 not asked for),
///   nS, samples (-1 the last point) x nS, nLines, (points, (azimuth, elevation) x nS) x nLines,
///   nHours, (hour, minute, azimuth, elevation) x nHours, nDays, (day, month, azimuth, elevation) x nDays,
///   nPoints of the compass, (0 S 1 W 2 N 3 E, azimuth it is at) x nPoints, nTicks, (azimuth 0 elevation 1, label, where) x nTicks,
///   latitude, longitude (1e-2 degrees), abbreviation of the zone, zone, the time of the user,
///   nBorder, (azimuth, elevation) x nBorder, points of the border of what is filled]
module conf_chart {
  import fixed.* from "./fixed"
  import civil.* from "./civil"
  import sky.* from "./sky"
  import algos.* from "./algos"
  import trace.* from "./trace"
  import cli_rules.* from "./cli_rules"
  import chart_rules.* from "./chart_rules"

  type Drawn = { n: int, dirs: List[Dir] }
  pure def sunAt(q: Chart, t: int): Dir =
    dir(0, eph(0, t), q.lat4 * 100000000000000, q.lon4 * 100000000000000, true)
  pure def alike(az: int, el: int, d: Dir): bool =
    isNum(az) and isNum(el) and zenithOk(90 * S - el, d.zens, tolCos(0)) and azimuthOk(az, d.az, d.sinz, tolAz(0))
  pure def sameLine(r: List[int], b: int, ns: int, d: Drawn): bool =
    r[b] == d.n and range(0, ns).foldl(true, (ok, j) => ok and alike(r[b + 1 + 2 * j], r[b + 2 + 2 * j], d.dirs[j]))
  /// degrees apart, at scale S
  pure def apart(a: int, b: int): int = iabs(fmod(a - b + 180 * S, 360 * S) - 180 * S)

  /// elevation at which a path crosses the meridian in the south (latitudes of 30 degrees or more)
  pure def inTheSouth(lat: int, dec: int): int = if (lat > 0) 90 * S - lat + dec else -90 * S - lat - dec

  /// declination of who is seen there (azimuth zero south)
  pure def decOf(lat: int, az: int, el: int): int =
    asin_(clamp(mul(sin_(rad(el)), sin_(rad(lat))) - mul(mul(cos_(rad(el)), cos_(rad(lat))), cos_(rad(az))), -S, S))

  /// A chart of now in a zone that the specification does not know: [NOW, situation (0 the clocks were turned back, and the
  /// clock of the machine shows an hour that there is twice; 1 they were put forward, and it shows an hour that there is not),
  /// drawn?, lines, abbreviation (1 of now, 0 of before)]
  pure val NOW: int = 99
  pure def judgeNow(r: List[int]): Verdict = {
    pure val want = length(curves({ zone: 0, t: 1700000000, lat4: 0, lon4: 0, polar: 0, user: 0, day: 0, month: 0, hour: -1, minute: 0 }))
    pure val v = PASS.clause("a chart of now, where clocks have just changed", [r[1]], r[2] == 1, r[2], 1)
    if (r[2] != 1) v
    else v.clause("its lines", [r[1]], r[3] == want, r[3], want)
          .clause("its abbreviation of the zone", [r[1]], r[4] == 1, r[4], 1)
  }

  pure def judge(rec: int): Verdict = {
   pure val r = unpack(rec)
   if (r[0] == NOW) judgeNow(r) else {
    pure val q = { zone: r[0], t: r[1], lat4: r[2], lon4: r[3], polar: r[4], user: r[5], day: r[6], month: r[7], hour: r[8], minute: r[9] }
    pure val v0 = PASS.clause("drawn", [], r[10] == 1, r[10], 1)
    if (r[10] != 1) v0
    else {
      pure val lat = q.lat4 * 100000000000000
      pure val ns = r[12]
      pure val smp = r.slice(13, 13 + ns)
      pure val ll = 13 + ns
      pure val nl = r[ll]
      pure val sz = 1 + 2 * ns
      pure val cs = curves(q)
      pure val ds = cs.foldl([], (l, c) => {
        pure val n = points(c)
        l.append({ n: n, dirs: smp.foldl([], (k, s) => k.append(sunAt(q, instantAt(c, if (s < 0) n - 1 else s % n)))) })
      })
      pure val v1 = v0.clause("number of lines", [], nl == length(cs), nl, length(cs))
      pure val v2 = ds.indices().fold(v1, (v, i) => v.clause("line that is missing", [cs[i].kind, i],
        range(0, nl).foldl(false, (b, j) => b or sameLine(r, ll + 1 + sz * j, ns, ds[i])), cs[i].w0, ds[i].n))
      pure val v3 = range(0, nl).foldl(v2, (v, j) => v.clause("line of nothing", [j],
        ds.foldl(false, (b, d) => b or sameLine(r, ll + 1 + sz * j, ns, d)), r[ll + 1 + sz * j], r[ll + 2 + sz * j]))
      // labels of the hours, at the sun of 21 June
      pure val hb = ll + 1 + sz * nl
      pure val nh = r[hb]
      pure val y = yearOf(q)
      pure val v4 = hours(q).foldl(v3, (v, h) => {
        pure val w = unixOf(y, 6, 21, h, q.minute, 0)
        pure val d = sunAt(q, w - offsetAt(q.zone, w))
        pure val el = 90 * S - deg(d.zens[0])
        pure val az = deg(d.az)
        pure val at = range(0, nh).select(k => r[hb + 1 + 4 * k] == h and r[hb + 2 + 4 * k] == q.minute)
        if (iabs(el) < 2000000000000000) v
        else v.clause("label of an hour", [h], length(at) == (if (el > 0) 1 else 0), length(at), if (el > 0) 1 else 0)
              .clause("label at its hour", [h], at == [] or el < 0 or {
                pure val o = hb + 1 + 4 * at[0]
                iabs(r[o + 3] - el) <= 1700 * 1000000000000000 and
                (apart(r[o + 2], az) <= 1700 * 1000000000000000 or mul(rad(apart(r[o + 2], az)), d.sinz) <= tolAz(0))
              }, if (at == []) 0 else r[hb + 4 + 4 * at[0]], el)
      }).clause("labels of hours that are not", [], range(0, nh).foldl(true, (b, k) =>
        b and r[hb + 2 + 4 * k] == q.minute and hours(q).select(h => h == r[hb + 1 + 4 * k]) != []), nh, 0)
      // labels of the days, where their lines cross the south
      pure val db = hb + 1 + 4 * nh
      pure val nd = r[db]
      pure val v5 = days(q).fold(v4, (v, d) => {
        pure val at = range(0, nd).select(k => r[db + 1 + 4 * k] == d._2 and r[db + 2 + 4 * k] == d._1)
        pure val dec = deg(eph(0, unixOf(y, d._1, d._2, 12, 0, 0) - utcOffset(q.zone, unixOf(y, d._1, d._2, 12, 0, 0))).dec)
        pure val want = inTheSouth(lat, dec)
        v.clause("label of a day", [d._1, d._2], length(at) == 1, length(at), 1)
         .clause("label at its day", [d._1, d._2], length(at) != 1 or {
           pure val o = db + 1 + 4 * at[0]
           r[o + 2] == 0 and (iabs(lat) < 30 * S or
             iabs(r[o + 3] - want) <= (if (iabs(want) < 10 * S) 1300 else 500) * 1000000000000000)
         }, if (at == []) 0 else r[db + 4 + 4 * at[0]], want)
      }).clause("labels of days that are not", [], nd == days(q).size(), nd, days(q).size())
      pure val pb = db + 1 + 4 * nd
      pure val np = r[pb]
      pure val v6 = range(0, np).foldl(v5.clause("points of the compass", [], np >= 4, np, 4), (v, k) =>
        v.clause("point of the compass", [r[pb + 1 + 2 * k]], isNum(r[pb + 2 + 2 * k]) and
          apart(r[pb + 2 + 2 * k], 90 * S * r[pb + 1 + 2 * k]) <= 8 * S, r[pb + 2 + 2 * k], 90 * S * r[pb + 1 + 2 * k]))
      pure val tb = pb + 1 + 2 * np
      pure val nt = r[tb]
      pure val v7 = range(0, nt).foldl(v6, (v, k) => {
        pure val o = tb + 1 + 3 * k
        v.clause("label of a tick", [r[o]], isNum(r[o + 1]) and apart(r[o + 1], r[o + 2]) <= 1000000000, r[o + 1], r[o + 2])
      })
      pure val e = tb + 1 + 3 * nt
      // what is filled lies between 21 June and 21 December (to a quarter of a degree: the border is interpolated; by day,
      // where refraction matters less)
      pure val nb = r[e + 5]
      pure val decs = [6, 12].foldl([], (l, m) => l.append(eph(0, unixOf(y, m, 21, 12, 0, 0)).dec))
      pure val on = range(0, nb).foldl([], (l, k) => {
        pure val az = r[e + 6 + 2 * k]
        pure val el = r[e + 7 + 2 * k]
        if (iabs(lat) < 30 * S or not(isNum(az)) or not(isNum(el)) or el < 5 * S) l
        else {
          pure val d = decOf(lat, az, el)
          l.append(if (iabs(d - decs[0]) <= rad(S / 4)) 6 else if (iabs(d - decs[1]) <= rad(S / 4)) 12 else 0)
        }
      })
      pure val v8 = on.indices().fold(v7.clause("something is filled", [], nb > 0, nb, 1), (v, k) => v.clause("border of what is filled", [k], on[k] > 0, on[k], 6))
      v8.clause("both days border what is filled", [], iabs(lat) < 30 * S or iabs(lat) > 60 * S or (on.select(k => k == 6) != [] and on.select(k => k == 12) != []), length(on), 2)
        .clause("ticks", [], nt >= 10, nt, 10)
        .clause("latitude", [], isNum(r[e]) and iabs(100 * r[e] - q.lat4) <= 50, r[e], q.lat4)
        .clause("longitude", [], isNum(r[e + 1]) and iabs(100 * r[e + 1] - q.lon4) <= 50, r[e + 1], q.lon4)
        .clause("abbreviation of the zone", [], r[e + 2] == abbreviation(q.zone, utcOffset(q.zone, q.t)), r[e + 2], 0)
        .clause("zone", [], r[e + 3] == q.zone, r[e + 3], q.zone)
        .clause("time of the user", [], r[e + 4] == (if (q.user == 1) q.t else NAN), r[e + 4], q.t)
        .clause("saved", [], r[11] < 0 or r[11] == 1, r[11], 1)
    }
   }
  }
}
