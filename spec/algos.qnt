/// The four algorithms behind one interface. 0 psa, 1 soltrack, 2 iqbal, 3 nrel.
module algos {
  import fixed.* from "./fixed"
  import sky.* from "./sky"
  import psa.* from "./psa"
  import soltrack.* from "./soltrack"
  import iqbal.* from "./iqbal"
  import nrel.* from "./nrel"

  pure def eph(a: int, t: int): Eph =
    if (a == 0) ephPSA(t) else if (a == 1) ephSoltrack(t) else if (a == 2) ephIqbal(t) else ephNREL(t)
  pure def dir(a: int, e: Eph, lat: int, lon: int, refr: bool): Dir =
    if (a == 0) dirPSA(e, lat, lon, refr) else if (a == 1) dirSoltrack(e, lat, lon, refr)
    else if (a == 2) dirIqbal(e, lat, lon, refr) else dirNREL(e, lat, lon, refr)

  /// tolerances on the cosine of the zenith and on azimuth x sin(zenith):
  /// float32 coordinates in all but nrel; psa rounds the cosine to 6 decimals
  pure def tolCos(a: int): int = if (a == 0) 1200000000000 else if (a == 3) 10000000000 else 700000000000
  pure def tolAz(a: int): int = if (a == 3) 20000000000 else 500000000000
  pure val TOLDEC: int = 100000000              // 1e-10 rad
  pure val TOLEOT: int = 10000000000            // 1e-8 min
  pure val TOLECF: int = 10000000               // 1e-11

  /// is an observed zenith (degrees) one of the correct ones?
  pure def zenithOk(zd: int, zens: List[int], tol: int): bool =
    zd >= 0 and zd <= 180 * S and
    zens.foldl(false, (b, z) => b or iabs(cos_(rad(zd)) - cos_(z)) <= tol)
  pure def azimuthOk(ad: int, az: int, sinz: int, tol: int): bool =
    mul(azDiff(rad(ad), az), sinz) <= tol
}
