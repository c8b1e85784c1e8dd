/// The rules of admission of requests (C10). A request is described by classes.
module request_rules {
  /// uc 0 sites 1 regular_grid 2 transect
  /// alg 0 psa 1 soltrack 2 iqbal 3 nrel; 4, 5: no such algorithm
  /// eng 0 numpy 1 numexpr; 2: no such engine
  /// nt, ny, nx: size of times, latitude and longitude; 0 stands for a scalar,
  ///   -1 for a two-dimensional array, -2 for an empty one
  /// yv: 0 inside 1 at the poles 2 NaN 3 a hair above 90 4 below -90 5 infinite
  /// xv: 0 inside 1 at the ends (-180, 179.99..) 2 NaN 3 180 4 a hair below -180 5 above 180 6 infinite
  /// pos: where the peculiar value is: 0 first 1 last 2 all
  /// form: 0 array of float64 1 list 2 tuple 3 array of float32
  type Request = { uc: int, alg: int, eng: int, nt: int, ny: int, nx: int, yv: int, xv: int, pos: int, form: int }

  pure def sizeOf(n: int): int = if (n == 0) 1 else if (n == -2) 0 else n

  // why a request is rejected
  pure def badAlgorithm(r: Request): bool = r.alg > 3
  pure def badEngine(r: Request): bool = not(badAlgorithm(r)) and (r.eng > 1 or (r.alg == 3 and r.eng == 0))
  pure def badDimensions(r: Request): bool = r.nt == -1 or r.ny == -1 or r.nx == -1
  pure def badSizes(r: Request): bool = not(badDimensions(r)) and
    ((r.uc != 1 and sizeOf(r.ny) != sizeOf(r.nx)) or (r.uc == 2 and sizeOf(r.nt) != sizeOf(r.ny)))
  /// no latitude is out of range in an empty list of them
  pure def badLatitude(r: Request): bool = r.yv >= 3 and sizeOf(r.ny) != 0
  pure def badLongitude(r: Request): bool = r.xv >= 3 and sizeOf(r.nx) != 0
  pure def served(r: Request): bool = not(badAlgorithm(r) or badEngine(r) or badDimensions(r) or badSizes(r) or
    badLatitude(r) or badLongitude(r))
  /// the exception must be a ValueError, unless arrays of two dimensions are
  /// involved, which pandas may reject on its own
  pure def mustBeValueError(r: Request): bool = not(served(r)) and not(badDimensions(r))

  /// shape of the zenith of a request that is served
  pure def shapeOf(r: Request): List[int] =
    if (r.uc == 0) [sizeOf(r.nt), sizeOf(r.ny)]
    else if (r.uc == 1) [sizeOf(r.nt), sizeOf(r.ny), sizeOf(r.nx)]
    else [sizeOf(r.nt)]

  type Phase = Draft | Served(List[int]) | Rejected
  pure def phaseOf(q: Request): Phase = if (served(q)) Served(shapeOf(q)) else Rejected

  /// a request is either served, with a shape, or rejected; and only those
  /// without a flaw are served
  pure def coherent(r: Request, phase: Phase): bool = match phase {
    | Draft => false
    | Rejected => not(served(r))
    | Served(s) => served(r) and length(s) == (if (r.uc == 2) 1 else if (r.uc == 0) 2 else 3)
        and r.alg <= 3 and (r.alg == 3 implies r.eng == 1) and r.nt != -1
        and (r.uc != 1 implies sizeOf(r.ny) == sizeOf(r.nx))
        and (r.yv <= 2 or r.ny == -2) and (r.xv <= 2 or r.nx == -2)
  }
}
