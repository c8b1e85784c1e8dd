/// C09: what a result says of the instants it was asked for.
/// Record: [zone, reported zone, n, (t, times, times_utc, local_standard_time,
///   utc offset of times (s), time coordinate) x n]; nanoseconds
module conf_time {
  import fixed.* from "./fixed"
  import civil.* from "./civil"
  import trace.* from "./trace"

  pure val SEC: int = 1000000000
  pure def judge(rec: int): Verdict = {
    pure val r = unpack(rec)
    pure val z = r[0]
    pure val v0 = PASS.clause("timezone name", [0], r[1] == z, r[1], z)
    range(0, r[2]).foldl(v0, (v, k) => {
      pure val b = 3 + 6 * k
      pure val t = r[b]
      pure val off = utcOffset(z, fdiv(t, SEC))
      v.clause("times", [k], r[b + 1] == t, r[b + 1], t)
       .clause("times_utc", [k], r[b + 2] == t, r[b + 2], t)
       .clause("local_standard_time", [k], r[b + 3] == t, r[b + 3], t)
       .clause("utc offset", [k], r[b + 4] == off, r[b + 4], off)
       .clause("time coordinate", [k], r[b + 5] == t + off * SEC, r[b + 5], t + off * SEC)
    })
  }
}
