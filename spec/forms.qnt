/// Ways of writing the arguments of a request (C29): containers and number types
/// of latitudes, longitudes and times. Every pair of forms of latitude and
/// longitude is visited; values are such that the form carries them exactly.
module forms {
  import fixed.* from "./fixed"
  import civil.* from "./civil"

  pure val COORDS: List[str] = ["float64 array", "list", "tuple", "list of ints", "float32 array", "float16 array", "int64 array",
    "int16 array", "int8 array", "big-endian array", "every other one of an array", "reversed array", "read-only array",
    "Series of odd index", "Index", "DataArray", "list of float64", "array.array", "range", "uint8 array",
    "list of ints and floats", "column of a matrix", "longdouble array", "int32 array", "float", "int", "float32", "0-d array",
    "Series numbered backwards", "DataArray numbered backwards", "masked array", "list of fractions", "deque", "Series of Float64",
    "field of records", "array of objects", "DataArray along itself"]
  pure def scalar(f: int): bool = f >= 24 and f < 28
  pure val NF: int = 37
  pure val TIMES: List[str] = ["datetime64[s]", "datetime64[ms]", "datetime64[us]", "datetime64[ns]", "datetime64[m]", "datetime64[h]",
    "datetime64[D]", "big-endian datetime64", "every other one of an array", "reversed array", "read-only array",
    "list of datetime64", "tuple of datetime64", "list of Timestamps", "Series of odd index", "DataArray", "array of datetimes",
    "named DatetimeIndex", "list of strings", "array of strings", "list of datetimes and Timestamps", "aware Series",
    "column of a matrix", "aware named DatetimeIndex", "datetime64[M]", "Series numbered backwards", "datetime64[15m]",
    "list of strings ending in Z", "list of dates", "list of aware datetimes", "array of Timestamps", "extension array",
    "list of strings with an offset", "DatetimeIndex of microseconds", "deque", "masked array", "datetime64[7D]"]
  pure val NT: int = 37

  pure def whole(f: int): bool = Set(3, 6, 7, 8, 18, 19, 20, 23, 25).contains(f)
  pure val ONE: int = S
  /// values of a form are multiples of this
  pure def grain(f: int): int = if (whole(f)) ONE else if (f == 4 or f == 26) ONE / 1024 else if (f == 5) ONE / 8 else 1000000000
  pure def least(f: int, x: int): int = if (f == 19) 0 else if (f == 8) imax(x, -128 * ONE) else x
  pure def most(f: int, x: int): int = if (f == 8) imin(x, 127 * ONE) else x
  pure def carries(f: int, x: int): bool = x % grain(f) == 0 and x >= least(f, x) and x <= most(f, x)
  /// a value in [-lim, lim] degrees that the form carries (below lim, if it is open)
  pure def valueOf(f: int, u: int, lim: int, open: bool): int = {
    pure val g = grain(f)
    pure val a = least(f, -lim * ONE)
    pure val b = most(f, lim * ONE)
    pure val top = if (open and b == lim * ONE) (b - a) / g else (b - a) / g + 1
    if (u % 11 == 0) a else if (u % 11 == 1) a + (top - 1) * g
    else a + (u % top) * g
  }
  pure def second(f: int): int = if (f == 4) 60 else if (f == 5) 3600 else if (f == 6 or f == 28) 86400 else if (f == 26) 900
    else if (f == 36) 604800 else 1
  /// the last instant that the form carries, no later than t: datetime64[M] those of the beginning of months
  pure def instantOf(f: int, t: int): int = if (f == 24) { pure val c = civilOf(t) unixOf(c.y, c.m, 1, 0, 0, 0) } else t - fmod(t, second(f))

  type Request = { uc: int, alg: int, eng: int, refr: bool, ft: int, fy: int, fx: int, ts: List[int], ys: List[int], xs: List[int] }
  var q: Request
  var k: int
  pure val NONE: Request = { uc: 0, alg: 0, eng: 0, refr: false, ft: 0, fy: 0, fx: 0, ts: [], ys: [], xs: [] }

  action init = all { q' = NONE, k' = 0 }
  action step = {
    nondet uc = 0.to(2).oneOf()
    nondet alg = 0.to(3).oneOf()
    nondet eng = 0.to(1).oneOf()
    nondet refr = Set(true, false).oneOf()
    nondet n = 1.to(5).oneOf()
    nondet m = 1.to(4).oneOf()
    nondet u = 0.to(1000000000000000).oneOf()
    nondet v = 0.to(1000000000000000).oneOf()
    nondet w = 0.to(1000000000000000).oneOf()
    val fy = k % NF
    val fx = (k / NF + k) % NF
    val ft = (k / 3 + k) % NT
    // one place only, if it is written as a scalar; as many longitudes as latitudes but in a grid
    val ny = if (scalar(fy) or (uc != 1 and scalar(fx))) 1 else n
    val nx = if (uc != 1) ny else if (scalar(fx)) 1 else m
    val nt = if (uc == 2) ny else 1 + (n + m) % 5
    // a range is evenly spaced: steps of one to seven degrees
    def spread(f, x0, s, lim, i) = if (f != 18) valueOf(f, s / (i * 7919 + 1) + i * 104729 * 1000003, lim, lim == 180)
      else ONE * (x0 % 60 - 30 + (1 + s % 7) * i)
    all {
      k' = k + 1,
      q' = { uc: uc, alg: alg, eng: if (alg == 3) 1 else eng, refr: refr, ft: ft, fy: fy, fx: fx,
             ts: range(0, nt).foldl([], (l, i) => {
               l.append(instantOf(ft, unixOf(1700, 1, 1, 0, 0, 0) + (w / (i * 6151 + 1)) % 17356464000))
             }),
             ys: range(0, ny).foldl([], (l, i) => l.append(spread(fy, u, v, 90, i))),
             xs: range(0, nx).foldl([], (l, i) => l.append(spread(fx, v, w, 180, i))) }
    }
  }
  /// every value is inside the domain, and such that its form carries it
  val written = {
    q.ys.indices().forall(i => carries(q.fy, q.ys[i]) and iabs(q.ys[i]) <= 90 * ONE) and
    q.xs.indices().forall(i => carries(q.fx, q.xs[i]) and q.xs[i] >= -180 * ONE and q.xs[i] < 180 * ONE) and
    q.ts.indices().forall(i => instantOf(q.ft, q.ts[i]) == q.ts[i]) and
    (q.uc == 1 or length(q.ys) == length(q.xs)) and (q.uc != 2 or length(q.ts) == length(q.ys)) and
    (not(scalar(q.fy)) or length(q.ys) <= 1) and (not(scalar(q.fx)) or length(q.xs) <= 1)
  }
}
