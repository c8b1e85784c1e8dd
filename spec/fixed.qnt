/// Fixed-point real arithmetic over Quint's unbounded integers.
///
/// A real number x is represented by the integer nearest to x * S, S = 10^18.
/// Angles are in radians unless a name says otherwise.  The absolute error of
/// every function below is at most about 1e-17, i.e. the specification is more
/// precise than the double precision it is compared with.
module fixed {
  pure val S: int = 1000000000000000000
  /// pi with 40 decimals, for the reduction of large arguments
  pure val BIG: int = 10000000000000000000000000000000000000000
  pure val PI40: int = 31415926535897932384626433832795028841972
  pure val TWOPI40: int = 62831853071795864769252867665590057683943
  pure val PI: int = 3141592653589793238
  pure val TWOPI: int = 6283185307179586477
  pure val HALFPI: int = 1570796326794896619
  pure val LN2: int = 693147180559945309
  pure val LN10: int = 2302585092994045684

  pure def iabs(a: int): int = if (a < 0) -a else a
  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def imax(a: int, b: int): int = if (a > b) a else b
  pure def sgn(a: int): int = if (a < 0) -1 else if (a > 0) 1 else 0
  pure def clamp(a: int, lo: int, hi: int): int = imax(lo, imin(hi, a))

  /// floor division and modulo for b > 0 (Quint's `/` truncates)
  pure def fdiv(a: int, b: int): int = if (a >= 0) a / b else -((b - 1 - a) / b)
  pure def fmod(a: int, b: int): int = a - b * fdiv(a, b)
  /// division rounded to nearest, b > 0
  pure def rdiv(a: int, b: int): int =
    if (a >= 0) (2 * a + b) / (2 * b) else -((b - 2 * a) / (2 * b))

  pure def mul(a: int, b: int): int = rdiv(a * b, S)
  /// a / b for any b != 0
  pure def quo(a: int, b: int): int = if (b > 0) rdiv(a * S, b) else rdiv(-a * S, -b)
  pure def sq(a: int): int = rdiv(a * a, S)

  /// polynomial c0 + c1 x + c2 x^2 + ... given highest degree first
  pure def horner(cs: List[int], x: int): int =
    cs.foldl(0, (acc, c) => mul(acc, x) + c)

  // ------------------------------------------------------------------ roots
  /// integer square root (floor)
  pure def isqrt(n: int): int =
    if (n <= 0) 0 else {
      // power-of-two start, above the root, then Newton: quadratic convergence
      pure val start = range(0, 9).foldl((1, n), (a, k) => {
        pure val sh = 2^(2 * (2^(8 - k)))       // 2^512, 2^256, ... , 2^2
        if (a._2 >= sh) (a._1 * 2^(2^(8 - k)), a._2 / sh) else a
      })._1 * 2
      range(0, 7).foldl(start, (x, k) => {
        pure val y = (x + n / x) / 2
        if (y < x) y else x
      })
    }
  pure def sqrt_(a: int): int = if (a <= 0) 0 else isqrt(a * S)

  // ------------------------------------------------------------ trigonometry
  /// reduces an angle to [0, 2pi)
  pure def red(x: int): int =
    if (x >= 0 and x < TWOPI) x else {
      // x * 10^22 has 40 decimals
      pure val y = fmod(x * 10000000000000000000000, TWOPI40)
      y / 10000000000000000000000
    }
  /// reduces an angle to (-pi, pi]
  pure def redpi(x: int): int = { pure val y = red(x)  if (y > PI) y - TWOPI else y }

  /// series, |x| <= pi/4
  pure def sinser(x: int): int = {
    pure val q = sq(x)
    pure def m(c: int, d: int): int = S - rdiv(q * c, S * d)
    // x (1 - q/6 (1 - q/20 (1 - q/42 (...))))
    mul(x, m(m(m(m(m(m(m(m(S, 272), 210), 156), 110), 72), 42), 20), 6))
  }
  pure def cosser(x: int): int = {
    pure val q = sq(x)
    pure def m(c: int, d: int): int = S - rdiv(q * c, S * d)
    m(m(m(m(m(m(m(m(m(S, 306), 240), 182), 132), 90), 56), 30), 12), 2)
  }
  pure def sin_(x: int): int = {
    pure val y = red(x)
    pure val k = (4 * y + PI) / (2 * PI)       // nearest multiple of pi/2, 0..4
    pure val z = y - rdiv(k * PI, 2)
    pure val q = k % 4
    if (q == 0) sinser(z) else if (q == 1) cosser(z) else if (q == 2) -sinser(z) else -cosser(z)
  }
  pure def cos_(x: int): int = {
    pure val y = red(x)
    pure val k = (4 * y + PI) / (2 * PI)
    pure val z = y - rdiv(k * PI, 2)
    pure val q = k % 4
    if (q == 0) cosser(z) else if (q == 1) -sinser(z) else if (q == 2) -cosser(z) else sinser(z)
  }
  pure def tan_(x: int): int = {
    pure val c = cos_(x)
    if (c == 0) S * S else quo(sin_(x), c)
  }

  /// atan(k/8), k = 0..8
  pure val ATANS: List[int] = [0, 124354994546761435, 244978663126864154,
    358770670270572220, 463647609000806116, 558599315343562436,
    643501108793284387, 718829999621624505, 785398163397448310]
  /// 0 <= x <= 1
  pure def atan01(x: int): int = {
    pure val k = (8 * x + S / 2) / S
    pure val d = quo(8 * x - k * S, 8 * S + k * x)
    pure val q = sq(d)
    // d (1 - q/3 + q^2/5 - ...)
    pure val p = range(0, 9).foldl(0, (acc, i) => rdiv(S, 17 - 2 * i) - mul(acc, q))
    ATANS[k] + mul(d, p)
  }
  pure def atan2_(y: int, x: int): int =
    if (x == 0 and y == 0) 0 else {
      pure val ay = iabs(y)
      pure val ax = iabs(x)
      pure val a = if (ay <= ax) atan01(rdiv(ay * S, ax)) else HALFPI - atan01(rdiv(ax * S, ay))
      pure val b = if (x >= 0) a else PI - a
      if (y >= 0) b else -b
    }
  pure def atan_(x: int): int = atan2_(x, S)
  pure def asin_(x: int): int = {
    pure val c = clamp(x, -S, S)
    atan2_(c, isqrt((S - c) * (S + c)))
  }
  pure def acos_(x: int): int = {
    pure val c = clamp(x, -S, S)
    atan2_(isqrt((S - c) * (S + c)), c)
  }

  // -------------------------------------------------- exponential, logarithm
  pure def exp_(x: int): int = {
    // x = k ln2 + r, 0 <= r < ln2
    pure val k = fdiv(x, LN2)
    pure val r = x - k * LN2
    pure val e = range(0, 20).foldl(S, (acc, i) => S + rdiv(mul(acc, r), 20 - i))
    if (k >= 0) e * 2^k else if (k < -200) 0 else rdiv(e, 2^(-k))
  }
  /// x > 0
  pure def ln_(x: int): int = {
    // x = m 2^k with m in [1/sqrt2.., sqrt2..]
    pure val up = range(0, 8).foldl((x, 0), (a, i) => {
      pure val p = 2^(7 - i)
      if (a._1 >= S * 2^p) (a._1 / 2^p, a._2 + p) else a
    })
    pure val dn = range(0, 7).foldl(up, (a, i) => {
      pure val p = 2^(6 - i)
      if (a._1 * 2^p < 2 * S) (a._1 * 2^p, a._2 - p) else a
    })
    // exact mantissa, again from x, to avoid the truncation of the scaling
    pure val k = dn._2
    pure val m = if (k >= 0) rdiv(x, 2^k) else x * 2^(-k)
    pure val z = quo(m - S, m + S)     // ln m = 2 atanh z, |z| <= 1/3
    pure val q = sq(z)
    pure val p = range(0, 20).foldl(0, (acc, i) => rdiv(S, 39 - 2 * i) + mul(acc, q))
    2 * mul(z, p) + k * LN2
  }
  pure def pow_(x: int, y: int): int =
    if (x <= 0) (if (y == 0) S else 0) else exp_(mul(ln_(x), y))

  pure val DEG: int = 17453292519943296        // pi / 180
  /// degrees (scale S) <-> radians (scale S)
  pure def rad(d: int): int = rdiv(d * PI, 180 * S)
  pure def deg(r: int): int = rdiv(r * 180 * S, PI)
}
