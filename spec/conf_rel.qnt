/// Relational properties: several observations of one quantity must agree,
/// whatever its value (C05 use cases, C06 engines, C07 locality, C08 missing
/// values, C09 ways of writing an instant).
/// Record: [alg, refraction, n, (kind, m, observation x m) x n]
module conf_rel {
  import fixed.* from "./fixed"
  import sky.* from "./sky"
  import algos.* from "./algos"
  import trace.* from "./trace"

  pure val DIRECTION: int = 0    // (zenith, azimuth) pairs, degrees
  pure val ECF: int = 1
  pure val EOT: int = 2
  pure val DEC: int = 3          // degrees
  pure val COSINE: int = 4       // a cosine that derives from the direction of the sun
  pure val TIME: int = 5         // nanoseconds
  pure val ANGLE: int = 6        // degrees, compared by its cosine
  pure val IRRAD: int = 7        // W/m2
  pure val EXACT: int = 8
  pure val MISSING: int = 9      // all of them must be missing
  pure val PRESENT: int = 10     // none of them may be missing
  pure val VALUE: int = 11       // any number, twice the same
  pure val NAMES: List[str] = ["direction", "ecf", "eot", "declination", "cosine", "time", "angle", "irradiance",
    "label or shape", "value where there must be none", "missing value",
    "repeated value"]

  /// elevations at which the refracted zenith is discontinuous: within a hair
  /// of the threshold, two calculations may fall on either side of it
  pure def refractedAtThreshold(alg: int): int = REFTHR + (
    if (alg == 1) bennett(REFTHR, 296700000000000, 89200000000000000)
    else bennett(REFTHR, 296700000000000, 89186000000000000))
  pure def nearJump(alg: int, refr: bool, zd: int): bool = {
    pure val el = HALFPI - rad(zd)
    alg != 2 and refr and
      (iabs(el - REFTHR) <= 4 * THRTOL or iabs(el - refractedAtThreshold(alg)) <= 40 * THRTOL)
  }

  pure def bothMissing(a: int, b: int): bool = a == NAN and b == NAN
  pure def within(a: int, b: int, tol: int): bool =
    bothMissing(a, b) or (isNum(a) and isNum(b) and iabs(a - b) <= tol)
  /// so close to the zenith or the nadir that cosines within the tolerance say
  /// nothing of the azimuth, it is not compared
  pure def sameAzimuth(alg: int, sinz: int, a1: int, a2: int): bool =
    sq(sinz) <= 8 * tolCos(alg) or mul(azDiff(rad(a1), rad(a2)), iabs(sinz)) <= 2 * tolAz(alg)
  pure def sameDirection(alg: int, refr: bool, z1: int, a1: int, z2: int, a2: int): bool =
    if (bothMissing(z1, z2)) bothMissing(a1, a2)
    else isNum(z1) and isNum(z2) and isNum(a1) and isNum(a2)
      and (iabs(cos_(rad(z1)) - cos_(rad(z2))) <= 2 * tolCos(alg)
           or (nearJump(alg, refr, z1) and nearJump(alg, refr, z2)))
      and sameAzimuth(alg, sin_(rad(z1)), a1, a2)

  pure def agree(alg: int, kind: int, a: int, b: int): bool =
    if (kind == ECF) within(a, b, TOLECF)
    else if (kind == EOT) within(a, b, TOLEOT)
    else if (kind == DEC) within(a, b, deg(TOLDEC))
    else if (kind == COSINE) within(a, b, 2 * tolCos(alg))
    else if (kind == TIME) within(a, b, 2000000)
    else if (kind == ANGLE)
      bothMissing(a, b) or (isNum(a) and isNum(b) and iabs(cos_(rad(a)) - cos_(rad(b))) <= 10 * TOLDEC)
    else if (kind == IRRAD) within(a, b, 1500 * 2 * tolCos(alg))
    else if (kind == MISSING) a == NAN and b == NAN
    else if (kind == PRESENT) isNum(a) and isNum(b)
    else if (kind == VALUE)
      a != ERR and (a == b or (isNum(a) and isNum(b) and iabs(a - b) <= imax(S, imax(iabs(a), iabs(b))) / 1000000000))
    else a == b and a != ERR

  pure def judge(rec: int): Verdict = {
    pure val r = unpack(rec)
    pure val alg = r[0]
    pure val refr = r[1] == 1
    range(0, r[2]).foldl((PASS, 3), (acc, j) => {
      pure val b = acc._2
      pure val kind = r[b]
      pure val m = r[b + 1]
      pure val o = b + 2
      if (kind == DIRECTION)
        (range(0, m).foldl(acc._1, (v, k) =>
          v.clause(NAMES[kind], [j, k],
            sameDirection(alg, refr, r[o], r[o + 1], r[o + 2 * k], r[o + 2 * k + 1]),
            r[o + 2 * k], r[o])), o + 2 * m)
      else
        (range(0, m).foldl(acc._1, (v, k) =>
          v.clause(NAMES[kind], [j, k], agree(alg, kind, r[o], r[o + k]), r[o + k], r[o])), o + m)
    })._1
  }
}
