/// What the command line accepts and prints (C24). Text is a list of character codes.
module cli_rules {
  import fixed.* from "./fixed"
  import civil.* from "./civil"
  import trace.* from "./trace"

  /// w: the time as written (seconds of wall time since 1970, in the zone); lat4, lon4: units of 1e-4 degrees;
  /// refr: 0 --no-refraction 1 --refraction 2 default; tf: how the time is written; flaw: 0 none, else see cli.qnt
  type Order = { zone: int, w: int, lat4: int, lon4: int, alg: int, refr: int, tf: int, flaw: int }

  /// the instants at which the clocks of a zone show w: one, unless they are changed then
  pure def instants(z: int, w: int): Set[int] =
    Set(-39600, -18000, -14400, -12600, -11700, -9000, 0, 3600, 7200, 19800, 20700, 32400, 37800, 39600, 50400)
      .filter(o => utcOffset(z, w - o) == o).map(o => w - o)
  pure def accepted(q: Order): bool = q.flaw == 0 and instants(q.zone, q.w).size() == 1
  pure def instantOf(q: Order): int = instants(q.zone, q.w).fold(0, (_, t) => t)

  /// abbreviation of a zone: its number, by zone and offset
  ///   0 UTC 1 CET 2 CEST 3 EST 4 EDT 5 +0545 6 +1030 7 +11 8 NST 9 NDT 10 +14 11 -11 12 UTC+05:30 13 UTC-03:15 14 JST 15 GMT 16 BST
  pure def abbreviation(z: int, off: int): int =
    if (z == 1) (if (off == 3600) 1 else 2) else if (z == 2) (if (off == -18000) 3 else 4) else if (z == 3) 5
    else if (z == 4) (if (off == 37800) 6 else 7) else if (z == 5) (if (off == -12600) 8 else 9)
    else if (z == 6) 10 else if (z == 7) 11 else if (z == 8) 12 else if (z == 9) 13 else if (z == 10) 14
    else if (z == 11) (if (off == 0) 15 else 16) else 0

  // ------------------------------------------------------------------- text
  pure val MINUS: int = 45
  pure val POINT: int = 46
  pure val COLON: int = 58
  pure val NA: List[int] = [110, 47, 97]
  pure def isDigit(c: int): bool = c >= 48 and c <= 57
  /// a number at the start of a text: whether it is one, its sign, its digits as
  /// an integer, how many of them are decimals, and what follows
  type Parsed = { ok: bool, neg: bool, v: int, ints: int, decs: int, rest: List[int] }
  pure def parse(s: List[int]): Parsed = {
    pure val neg = length(s) > 0 and s[0] == MINUS
    // phase 0 integer digits, 1 decimals, 2 the rest
    pure val r = range(if (neg) 1 else 0, length(s)).foldl({ phase: 0, v: 0, i: 0, d: 0, rest: [] }, (a, k) => {
      pure val c = s[k]
      if (a.phase == 0 and isDigit(c)) { ...a, v: 10 * a.v + c - 48, i: a.i + 1 }
      else if (a.phase == 0 and c == POINT) { ...a, phase: 1 }
      else if (a.phase == 1 and isDigit(c)) { ...a, v: 10 * a.v + c - 48, d: a.d + 1 }
      else { ...a, phase: 2, rest: a.rest.append(c) }
    })
    { ok: r.i > 0, neg: neg, v: r.v, ints: r.i, decs: r.d, rest: r.rest }
  }
  /// text of a number of scale S, rounded to n decimals, and a suffix
  pure def shows(s: List[int], x: int, n: int, suffix: List[int]): bool = {
    pure val p = parse(s)
    pure val unit = 10^(18 - n)
    p.ok and p.decs == n and p.rest == suffix
    and iabs((if (p.neg) -p.v else p.v) * unit - x) <= unit / 2 + 1000000
    and (p.neg implies x < 1000000)
  }
  /// text of a time of the day, HH:MM:SS, of a time in nanoseconds (truncated)
  pure def showsClock(s: List[int], ns: int): bool =
    if (ns == NAN) s == NA
    else length(s) == 8 and s[2] == COLON and s[5] == COLON and
      Set(0, 1, 3, 4, 6, 7).forall(k => isDigit(s[k])) and {
        pure def two(k: int): int = 10 * (s[k] - 48) + s[k + 1] - 48
        two(3) < 60 and two(6) < 60 and two(0) < 24 and
        Set(-1000000, 0, 1000000).exists(e => fdiv(fmod(ns + e, 86400000000000), 1000000000) == 3600 * two(0) + 60 * two(3) + two(6))
      }
  /// minutes and seconds, [-]M:S.s min, of a number of minutes (scale S)
  pure def showsMinutes(s: List[int], x: int): bool = {
    pure val p = parse(s)
    p.ok and p.decs == 0 and length(p.rest) > 1 and p.rest[0] == COLON and {
      pure val q = parse(p.rest.slice(1, length(p.rest)))
      pure val secs = 600 * p.v + q.v          // tenths of a second
      q.ok and not(q.neg) and q.decs == 1 and q.v < 600 and q.rest == [32, 109, 105, 110]
      and iabs(secs * (S / 10) - 60 * iabs(x)) <= S / 20 + 100000000
      and (secs == 0 or (p.neg == (x < 0)))
    }
  }
}
