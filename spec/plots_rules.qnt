/// The plots of the benchmark (C39): what is shown, in which order, and the distributions drawn
module plots_rules {
  import fixed.* from "./fixed"
  import bench_rules.* from "./bench_rules"

  /// methods: 0 pvlib nrel_numba, 1 pvlib nrel_numpy, 2 pvlib ephemeris, 3 pvlib pyephem, 4 sg2, 5 sunwhere nrel_numexpr,
  /// 6 nrel_numpy, 7 soltrack_numexpr, 8 soltrack_numpy, 9 psa_numexpr, 10 psa_numpy, 11 iqbal_numexpr, 12 iqbal_numpy,
  /// 13 the soltrack package, 14 one of a name of its own
  pure val METHODS: int = 15
  /// engines of numpy are not plotted: they would cover those of numexpr
  pure def plotted(m: int): bool = not(Set(1, 6, 8, 10, 12, 13).contains(m))

  /// differences of a method, in degrees; the sizes plotted
  type Diffs = { az: List[int], zen: List[int] }
  pure def sizes(l: List[int]): List[int] = l.foldl([], (a, x) => a.append(iabs(x)))
  pure def log10_(x: int): int = quo(ln_(x), LN10)
  /// the distribution drawn (a kernel estimate of the logarithms): its mean, and its deviation
  type Curve = { mean: int, dev: int }
  /// the n-th root of 1/5, of n points: exp(-ln(n) / 5)
  pure def scott(n: int): int = exp_(-ln_(n * S) / 5)
  pure def curve(l: List[int]): Curve = {
    pure val x = sizes(l).foldl([], (a, y) => a.append(log10_(y)))
    pure val n = length(x)
    pure val m = mean(x)
    // variance with n: of the mixture; with n - 1: of the kernels, whose width is 0.8 of Scott's
    pure val s2 = x.foldl(0, (a, y) => a + sq(y - m))
    pure val h = mul(scott(n), 8 * S / 10)
    { mean: m, dev: sqrt_(s2 / n + mul(s2 / (n - 1), sq(h))) }
  }
  /// the order of the panels, from the top: that of the ranks (as many as methods, or none)
  type Ranked = { m: int, key: int }
  pure def panels(ms: List[int], ranks: List[int]): List[int] =
    if (length(ranks) == 0) ms.select(plotted)
    else {
      pure val none: List[Ranked] = []
      ms.indices().fold(none, (l, i) => if (not(plotted(ms[i]))) l else
        l.select(y => y.key <= ranks[i]).append({ m: ms[i], key: ranks[i] }).concat(l.select(y => y.key > ranks[i])))
      .foldl([], (l, y) => l.append(y.m))
    }

  /// the table of times: a figure is microseconds per instant and place
  type Figure = { m: int, times: int, place: int, us: int }
  /// the places plotted, of 1, 10, 100, 10x10, 50x50, 100x100
  pure val PLOTTED: List[int] = [0, 2, 3]
  pure def pointsOf(place: int): int = [1, 10, 100, 100, 2500, 10000][place]
  pure def seconds(f: Figure): int = rdiv(f.us * f.times * pointsOf(f.place), 1000000)
}
