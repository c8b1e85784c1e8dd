/// Loads at once, and schedules of them (C37)
module rush {
  /// which year and site; whether it is another process than the first (or a thread of it); which of its requests the network
  /// does not answer (0: none)
  type Load = { key: int, process: bool, failAt: int }
  type Quantum = { th: int, lines: int }
  type Rush = { loads: List[Load], stored: int, sched: List[Quantum] }
  var r: Rush
  var age: int
  pure val LONG: int = 40
  action init = all { r' = { loads: [], stored: 0, sched: [] }, age' = 0 }
  action gather = {
    nondet n = Set(2, 2, 3).oneOf()
    nondet apart = 0.to(4).oneOf()
    nondet procs = 0.to(7).oneOf()
    nondet fails = 0.to(5).oneOf()
    nondet u = 0.to(1000).oneOf()
    nondet stored = 0.to(20).oneOf()
    all {
      r' = { loads: range(0, n).foldl([], (a, k) => a.append({
          key: if (apart == 0) (u + k) % 4 else u % 4, process: k > 0 and (procs / (if (k == 1) 1 else 2)) % 2 == 1,
          failAt: if (fails == k) 1 + u % 12 else 0 })),
        stored: if (stored > 12) 0 else stored, sched: [] },
      age' = age + 1
    }
  }
  action quantum = {
    nondet th = 0.to(2).oneOf()
    nondet lines = Set(1, 2, 3, 4, 5, 7, 11, 17, 29, 60, 150, 400).oneOf()
    all { r' = { ...r, sched: r.sched.append({ th: th % length(r.loads), lines: lines }) }, age' = age + 1 }
  }
  action step = if (age % LONG == 0) gather else quantum
  val sane = age == 0 or (length(r.loads) >= 2 and r.sched.indices().forall(k => r.sched[k].th < length(r.loads)))
}
