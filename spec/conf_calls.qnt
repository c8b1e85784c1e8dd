/// C36: what calls gave.
/// Record: [function, n, by position x n, m, (parameter, value) x m, odd; 0 answered 1 refused; the call it is compared with: value of each
///   parameter; k, (kind, got, want) x k]
/// kind: 0 number 1 nanoseconds 2 integer 100 + p: value of parameter p that the result says that it has
module conf_calls {
  import fixed.* from "./fixed"
  import trace.* from "./trace"
  import calls_rules.* from "./calls_rules"
  pure def judge(rec: int): Verdict = {
    pure val r = unpack(rec)
    pure val np = r[1]
    pure val a = 2 + np
    pure val nk = r[a]
    pure val b = a + 1 + 2 * nk
    pure val c = { fn: r[0], pos: r.slice(2, a), kw: range(0, nk).foldl([], (l, i) => l.append({ p: r[a + 1 + 2 * i], v: r[a + 2 + 2 * i] })), odd: r[b] }
    pure val n = arity(c)
    pure val o = b + 2 + n
    pure val v1 = PASS.clause("answered, or refused", [c.fn, c.odd], (r[b + 1] == 0) == answered(c), r[b + 1], if (answered(c)) 0 else 1)
      .clause("compared with what it means", [c.fn], not(answered(c)) or r.slice(b + 2, o) == meaning(c), 0, 0)
    if (not(answered(c)) or r[b + 1] != 0) v1
    else range(0, r[o]).foldl(v1, (v, i) => {
      pure val k = r[o + 1 + 3 * i]
      pure val x = r[o + 2 + 3 * i]
      pure val y = r[o + 3 + 3 * i]
      if (k >= 100) v.clause("says what it means", [c.fn, k - 100, i], x == meaning(c)[k - 100], x, meaning(c)[k - 100])
      else if (k == 0) v.close("gives what it means", [c.fn, k, i], x, y, 1000000000 + (if (isNum(y)) iabs(y) / 1000000000 else 0))
      else if (k == 1) v.close("gives what it means", [c.fn, k, i], x, y, 20000)
      else v.clause("gives what it means", [c.fn, k, i], x == y, x, y)
    }).clause("there is something to compare", [c.fn], r[o] > 0, r[o], 1)
  }
}
