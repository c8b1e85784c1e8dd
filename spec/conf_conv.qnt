/// C23: conversion of UTC to true solar time, and back.
/// A record: [K, J, times.., longitudes.., and for each of the two conversions: number of dimensions, sizes..,
///   K x J converted times.., n, (k, j, time obtained by undoing the conversion of k, j) x n]
module conf_conv {
  import fixed.* from "./fixed"
  import sky.* from "./sky"
  import psa.* from "./psa"
  import derived.* from "./derived"
  import trace.* from "./trace"

  pure val MS: int = 1000000
  pure val NSS: int = 1000000000
  /// to true solar time (1), or back (-1)
  pure def convert(t: int, lond: int, way: int): int = t + way * solarShift(ephPSA(fdiv(t, NSS)).eot, lond)
  /// how well a conversion is undone: the equation of time changes meanwhile
  pure def slack(lond: int): int = 500000000 + rdiv(90000000 * iabs(lond), S)
  pure def squeezed(k: int, j: int): List[int] = [k, j].select(n => n != 1)

  pure def judge(rec: int): Verdict = {
    pure val r = unpack(rec)
    pure val K = r[0]
    pure val J = r[1]
    pure val lonAt = 2 + K
    pure val dims = squeezed(K, J)
    range(0, 2).foldl((PASS, 2 + K + J), (acc, c) => {
      pure val way = 1 - 2 * c
      pure val p = acc._2
      pure val nd = r[p]
      pure val v0 = acc._1.clause("shape", [c], r.slice(p + 1, p + 1 + nd) == dims, nd, length(dims))
      pure val vals = p + 1 + nd
      pure val v1 = range(0, K).foldl(v0, (v, k) => {
        pure val t = r[2 + k]
        if (t == NAN) range(0, J).foldl(v, (w, j) => w.clause("missing", [c, k, j], r[vals + k * J + j] == NAN, r[vals + k * J + j], NAN))
        else {
          pure val eot = ephPSA(fdiv(t, NSS)).eot
          range(0, J).foldl(v, (w, j) =>
            w.close("conversion", [c, k, j], r[vals + k * J + j], t + way * solarShift(eot, r[lonAt + j]), MS)
             .clause("four minutes per degree", [c, k, j], isNum(r[vals + k * J + j]) and
                iabs(r[vals + k * J + j] - r[vals + k * J] - way * rdiv(240 * (r[lonAt + j] - r[lonAt]), NSS)) <= 1000,
                r[vals + k * J + j], r[vals + k * J]))
        }
      })
      pure val q = vals + K * J
      (range(0, r[q]).foldl(v1, (v, i) => {
        pure val b = q + 1 + 3 * i
        v.clause("undone", [c, r[b], r[b + 1]], isNum(r[b + 2]) and iabs(r[b + 2] - r[2 + r[b]]) <= slack(r[lonAt + r[b + 1]]),
                 r[b + 2], r[2 + r[b]])
      }), q + 1 + 3 * r[q])
    })._1
  }
}
