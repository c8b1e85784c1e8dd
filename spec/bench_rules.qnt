/// What the benchmark makes of the errors of an algorithm (C32). Scale S.
module bench_rules {
  import fixed.* from "./fixed"

  /// the short way around, from o to m (degrees)
  pure def around(m: int, o: int): int = fmod(m - o + 180 * S, 360 * S) - 180 * S
  pure def insert(l: List[int], x: int): List[int] =
    l.select(y => y <= x).append(x).concat(l.select(y => y > x))
  pure def sorted(l: List[int]): List[int] = l.foldl([], (a, x) => insert(a, x))
  /// quantile of a sorted list, q in hundredths, linear between its members
  pure def quantile(l: List[int], q: int): int = {
    pure val p = q * (length(l) - 1)
    pure val i = p / 100
    if (p % 100 == 0) l[i] else l[i] + rdiv((l[i + 1] - l[i]) * (p % 100), 100)
  }
  pure def total(l: List[int]): int = l.foldl(0, (a, x) => a + x)
  pure def mean(l: List[int]): int = rdiv(total(l), length(l))
  pure def squares(l: List[int]): int = l.foldl(0, (a, x) => a + x * x)
  type Scores = { mbe: int, std: int, mae: int, rmse: int, p66: int, p90: int }
  /// of two errors or more
  pure def scores(l: List[int]): Scores = {
    pure val n = length(l)
    pure val m = mean(l)
    pure val d = sorted(l.foldl([], (a, x) => a.append(iabs(x - m))))
    { mbe: m, std: isqrt(squares(d) / (n - 1)), mae: rdiv(l.foldl(0, (a, x) => a + iabs(x)), n),
      rmse: isqrt(squares(l) / n), p66: quantile(d, 66), p90: quantile(d, 90) }
  }
}
