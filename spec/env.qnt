/// Lives of processes that use the library, in every environment (C30)
module env {
  import env_rules.* from "./env_rules"
  /// how a process is started: time zone, locale, hash seed, optimisation,
  /// directory, threads, warnings, encoding
  type Start = { tz: int, lc: int, hash: int, opt: int, dir: int, threads: int, warn: int, utf8: int }
  var start: Start
  var p: Proc
  var last: Op
  var age: int
  var life: int           // of planned lives, how many were lived before

  action born = {
    nondet tz = 0.to(4).oneOf()
    nondet lc = 0.to(3).oneOf()
    nondet hash = 0.to(2).oneOf()
    nondet opt = 0.to(2).oneOf()
    nondet dir = 0.to(1).oneOf()
    nondet threads = 0.to(3).oneOf()
    nondet warn = 0.to(2).oneOf()
    nondet utf8 = 0.to(1).oneOf()
    all {
      start' = { tz: tz, lc: lc, hash: hash, opt: opt, dir: dir, threads: threads, warn: warn, utf8: utf8 },
      p' = START, last' = Load, age' = 0, life' = 0
    }
  }
  action doing(op: Op): bool = all { start' = start, p' = apply(p, op), last' = op, age' = age + 1, life' = life }
  action change = {
    nondet i = 0.to(NS - 1).oneOf()
    nondet v = 0.to(3).oneOf()
    all { v < VALUES[i], doing(Change({ i: i, v: v })) }
  }
  action change2 = change
  action ask = { nondet r = 0.to(NREQ - 1).oneOf() doing(Ask({ r: r })) }
  action ask2 = ask
  action fail_ = { nondet r = 0.to(7).oneOf() doing(Refuse({ r: r })) }
  action init = born
  action step = if (age >= 40) born else any { change, change2, ask, ask2, fail_ }
  /// planned lives: one value of one setting, and then every request
  pure val PAIRS: List[{ i: int, v: int }] = range(0, NS).foldl([], (l, i) =>
    range(1, 4).foldl(l, (m, v) => if (v < VALUES[i]) m.append({ i: i, v: v }) else m))
  action planned = if (age <= NREQ) {
      val pair = PAIRS[life % PAIRS.length()]
      doing(if (age == 0) Change(pair) else Ask({ r: age - 1 }))
    } else all {
      start' = start, p' = START, last' = Load, age' = 0, life' = life + 1
    }
  /// the settings are the user's, whatever was asked
  val mine = match last {
    | Change(s) => p[s.i] == s.v
    | _ => age == 0 implies p == START
  }
}
