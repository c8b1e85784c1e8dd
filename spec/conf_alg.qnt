/// C01-C04: recorded results against the algorithm's specification.
/// Record: [t, nE, (src, ecf, eot, dec) x nE, nC, (lat, lon, nO, (src, zen, az) x nO) x nC]
/// src = 100 use case + 10 engine + refraction; all values at scale 10^18, angles in degrees.
module conf_alg {
  import fixed.* from "./fixed"
  import sky.* from "./sky"
  import algos.* from "./algos"
  import trace.* from "./trace"

  pure def judge(alg: int, rec: int): Verdict = {
    pure val r = unpack(rec)
    pure val e = eph(alg, r[0])
    pure val ne = r[1]
    pure val v0 = range(0, ne).foldl(PASS, (v, k) => {
      pure val b = 2 + 4 * k
      v.close("ecf", [r[b]], r[b + 1], e.ecf, TOLECF)
       .close("eot", [r[b]], r[b + 2], e.eot, TOLEOT)
       .close("declination", [r[b]], r[b + 3], deg(e.dec), deg(TOLDEC))
    })
    pure val nc = r[2 + 4 * ne]
    range(0, nc).foldl((v0, 3 + 4 * ne), (a, j) => {
      pure val b = a._2
      pure val d0 = dir(alg, e, r[b], r[b + 1], false)
      pure val d1 = dir(alg, e, r[b], r[b + 1], true)
      pure val no = r[b + 2]
      pure val v1 = range(0, no).foldl(a._1, (v, k) => {
        pure val o = b + 3 + 3 * k
        pure val d = if (r[o] % 10 == 1) d1 else d0
        v.clause("zenith", [r[o], j], isNum(r[o + 1]) and zenithOk(r[o + 1], d.zens, tolCos(alg)),
                 r[o + 1], deg(d.zens[0]))
         .clause("azimuth", [r[o], j], isNum(r[o + 2]) and azimuthOk(r[o + 2], d.az, d.sinz, tolAz(alg)),
                 r[o + 2], deg(d.az))
      })
      (v1, b + 3 + 3 * no)
    })._1
  }
}
