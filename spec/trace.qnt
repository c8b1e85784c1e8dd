/// Traces recorded from the implementation. A record is one unbounded integer:
/// a sequence of 24-digit decimal fields, the first one the least significant.
module trace {
  import fixed.* from "./fixed"

  pure val W: int = 1000000000000000000000000
  pure val OFF: int = 500000000000000000000000
  /// values with no number
  pure val NAN: int = W - 1 - OFF           // not-a-number, not-a-time
  pure val PINF: int = W - 2 - OFF
  pure val NINF: int = W - 3 - OFF
  pure val ERR: int = W - 4 - OFF           // an exception, or no such cell
  pure def isNum(x: int): bool = x < ERR

  pure def unpack(n: int): List[int] = {
    pure val cnt = n % W - OFF              // first field: how many follow
    range(0, cnt).foldl(([], n / W), (acc, k) => (acc._1.append(acc._2 % W - OFF), acc._2 / W))._1
  }

  /// A clause that did not hold: its name, where (meaning depends on the
  /// trace), what was observed and what was expected
  type Fail = { clause: str, at: List[int], got: int, want: int }
  /// n: clauses evaluated
  type Verdict = { n: int, fails: List[Fail] }
  pure val PASS: Verdict = { n: 0, fails: [] }

  pure def clause(v: Verdict, name: str, at: List[int], holds: bool, got: int, want: int): Verdict =
    { n: v.n + 1,
      fails: if (holds) v.fails else v.fails.append({ clause: name, at: at, got: got, want: want }) }
  /// |got - want| <= tol, both numbers; or both not-a-number
  pure def close(v: Verdict, name: str, at: List[int], got: int, want: int, tol: int): Verdict =
    clause(v, name, at,
      if (isNum(want)) isNum(got) and iabs(got - want) <= tol else got == want, got, want)
}
