/// Loads of the tables of speed, in one place of the disk (C38), and works to measure
module speed {
  import speed_rules.* from "./speed_rules"
  const N: int
  var kept: List[int]
  var shown: List[int]
  var event: Event
  var age: int
  var failed: Set[(int, int)]
  pure val NOTHING: List[int] = range(0, N).foldl([], (l, m) => l.append(0))
  action init = all { kept' = NOTHING, shown' = [], event' = { kind: LOSE, m: 0, k: 0 }, age' = 0, failed' = Set() }
  action meet(e: Event): bool = all {
    event' = e, age' = age + 1, kept' = keep(kept, e, age + 1),
    shown' = if (e.kind != LOSE and ends(kept, e)) keep(kept, e, age + 1) else [],
    failed' = if (e.kind == FAIL and not(ends(kept, e))) failed.union(Set((e.m, age + 1))) else failed
  }
  action step = all {
    age < 6,
    nondet kind = Set(LOAD, FAIL, LOSE).oneOf()
    nondet m = 0.to(N - 1).oneOf()
    nondet k = 0.to(3).oneOf()
    meet({ kind: kind, m: m, k: if (kind == FAIL) k else 0 })
  }
  /// what is shown is all there, measured by a load that ended it, and the most recent since it was lost
  val sound = and {
    shown.length() == 0 or shown == kept,
    shown.indices().forall(m => shown[m] > 0 and shown[m] <= age and not(failed.contains((m, shown[m])))),
    event.kind == LOAD implies shown.length() == N,
    event.kind == LOSE implies kept[event.m] == 0,
    failed.contains((event.m, age)) implies kept[event.m] == 0 and kept.indices().forall(m => m < event.m implies kept[m] > 0)
  }
}
module speed3 { import speed(N = 3).* }
module speed10 { import speed(N = 10).* }
/// Works
module works {
  import fixed.* from "./fixed"
  import speed_rules.* from "./speed_rules"
  type Ask = { m: int, w: Work, repeats: int, number: int, seed: int }
  var a: Ask
  action draw = {
    nondet m = 0.to(METHODS - 1).oneOf()
    nondet t = Set(1, 1, 2, 3, 10, 59, 1441).oneOf()
    nondet u = Set(1, 2, 3, 4, 5, 6, 7, 130).oneOf()
    nondet v = 1.to(7).oneOf()
    nondet shape = Set(0, 1, 1, 2, 2).oneOf()
    nondet repeats = Set(1, 2, 3, 5).oneOf()
    nondet number = Set(1, 1, 2, 3).oneOf()
    nondet seed = 0.to(1000000).oneOf()
    a' = { m: m, w: { times: t, grid: shape == 2, lats: if (shape == 0) 1 else u, lons: if (shape == 0) 1 else if (shape == 1) u else v },
           repeats: repeats, number: number, seed: seed }
  }
  action init = draw
  action step = draw
  /// the work is done in full, whoever does it
  val sane = callsOf(a.m, a.w) * points(callOf(a.m, a.w)) * callOf(a.m, a.w).times == a.w.times * points(a.w)
}
