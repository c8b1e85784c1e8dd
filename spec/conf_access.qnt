/// C14: the accessors of a result, and their mutual consistency.
/// Record: [nT, (declination, dec) x nT, nI, (times, local_standard_time, times in UTC, times_utc) x nI,
///          nC, (zenith, sza, elevation, cosz, azimuth, saa) x nC, nA, (expected, observed attribute) x nA]
/// degrees; nanoseconds
module conf_access {
  import fixed.* from "./fixed"
  import trace.* from "./trace"

  pure val D: int = 1000000000            // 1e-9
  pure def judge(rec: int): Verdict = {
    pure val r = unpack(rec)
    pure val v0 = range(0, r[0]).foldl(PASS, (v, k) =>
      v.clause("dec is declination", [k], isNum(r[1 + 2 * k]) and r[1 + 2 * k] == r[2 + 2 * k], r[2 + 2 * k], r[1 + 2 * k]))
    pure val i0 = 1 + 2 * r[0]
    pure val v1 = range(0, r[i0]).foldl(v0, (v, k) => {
      pure val b = i0 + 1 + 4 * k
      v.clause("local_standard_time is times", [k], r[b] != ERR and r[b] == r[b + 1], r[b + 1], r[b])
       .clause("times and times_utc", [k], r[b + 2] != ERR and r[b + 2] == r[b + 3], r[b + 3], r[b + 2])
    })
    pure val c0 = i0 + 1 + 4 * r[i0]
    pure val v2 = range(0, r[c0]).foldl(v1, (v, k) => {
      pure val b = c0 + 1 + 6 * k
      pure val z = r[b]
      v.clause("zenith is a number", [k], isNum(z), z, 0)
       .clause("sza is zenith", [k], r[b + 1] == z, r[b + 1], z)
       .close("elevation is 90 - zenith", [k], r[b + 2], 90 * S - z, D)
       .close("cosz is the cosine of zenith", [k], r[b + 3], cos_(rad(z)), D)
       .clause("saa is azimuth", [k], isNum(r[b + 4]) and r[b + 4] == r[b + 5], r[b + 5], r[b + 4])
    })
    pure val a0 = c0 + 1 + 6 * r[c0]
    range(0, r[a0]).foldl(v2, (v, k) =>
      v.clause("name and units", [k], r[a0 + 1 + 2 * k] == r[a0 + 2 + 2 * k], r[a0 + 2 + 2 * k], r[a0 + 1 + 2 * k]))
  }
}
