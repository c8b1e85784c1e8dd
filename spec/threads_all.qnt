/// Every interleaving of small threads, for exhaustive checking. An operation is
/// executed in three steps, between which the others may do anything: it takes
/// its arguments, works on what it took, and publishes what it made. What is
/// published is what it would be alone.
module threads_all {
  type Local = { op: int, stage: int, taken: int, made: int }
  var th: List[Local]
  var published: List[List[int]]
  pure val NT: int = 3
  pure val OPS: int = 2
  /// the argument of an operation of a thread, and the value of an operation alone
  pure def argOf(t: int, op: int): int = 10 * t + op
  pure def alone(a: int): int = a * a + 1

  action init = all {
    th' = [{ op: 0, stage: 0, taken: 0, made: 0 }, { op: 0, stage: 0, taken: 0, made: 0 }, { op: 0, stage: 0, taken: 0, made: 0 }],
    published' = [[], [], []]
  }
  action advance(t: int): bool = {
    val l = th[t]
    all {
      l.op < OPS,
      if (l.stage == 0) all { th' = th.replaceAt(t, { ...l, stage: 1, taken: argOf(t, l.op) }), published' = published }
      else if (l.stage == 1) all { th' = th.replaceAt(t, { ...l, stage: 2, made: alone(l.taken) }), published' = published }
      else all { th' = th.replaceAt(t, { op: l.op + 1, stage: 0, taken: 0, made: 0 }),
                 published' = published.replaceAt(t, published[t].append(l.made)) }
    }
  }
  action step = any {
    { nondet t = 0.to(NT - 1).oneOf() advance(t) },
    all { range(0, NT).foldl(true, (b, t) => b and th[t].op == OPS), th' = th, published' = published }
  }
  val asAlone = range(0, NT).foldl(true, (ok, t) => ok and published[t].length() == th[t].op and
    range(0, published[t].length()).foldl(true, (b, k) => b and published[t][k] == alone(argOf(t, k))))
}
