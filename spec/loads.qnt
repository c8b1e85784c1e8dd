/// Three loads of the ephemeris of a year at once, in one place of the disk, and dying anywhere (C37). A file is absent, torn or whole.
/// Each writes under a name of its own; a month that another load has removed, because the year is stored, is asked for again.
module loads {
  pure val ABSENT: int = 0
  pure val TORN: int = 1
  pure val WHOLE: int = 2
  /// months
  const N: int
  pure val MONTHS: Set[int] = 1.to(N)
  pure val LOADS: Set[int] = 1.to(3)
  type Load = { pc: str, m: int, mine: Set[int], seen: Set[int], part: int, asked: int }
  pure val IDLE: Load = { pc: "idle", m: 0, mine: Set(), seen: Set(), part: ABSENT, asked: 0 }
  var month: int -> int
  var year: int
  var load: int -> Load
  var faults: int             // deaths and failures of the network
  var misled: bool            // has a load raised, although nothing failed?
  action init = all { month' = MONTHS.mapBy(k => ABSENT), year' = ABSENT, load' = LOADS.mapBy(l => IDLE), faults' = 0, misled' = false }
  action becomes(l: int, x: Load): bool = load' = load.set(l, x)
  action files = all { month' = month, year' = year, faults' = faults, misled' = misled }
  action begin(l: int): bool = { val x = load.get(l) all { x.pc == "idle", files, becomes(l, { ...IDLE, pc: if (year != ABSENT) "given" else "look", m: 1 }) } }
  action look(l: int): bool = { val x = load.get(l) all { x.pc == "look", files, becomes(l, { ...x, pc: if (month.get(x.m) == ABSENT) "ask" else "read" }) } }
  action ask(l: int): bool = { val x = load.get(l) all { x.pc == "ask", files, becomes(l, { ...x, asked: x.asked + 1, pc: "write" }) } }
  action refused(l: int): bool = { val x = load.get(l)
    all { x.pc == "ask", faults < 2, month' = month, year' = year, faults' = faults + 1, misled' = misled, becomes(l, IDLE) } }
  action write(l: int): bool = { val x = load.get(l) all { x.pc == "write", files, becomes(l, { ...x, part: TORN, pc: "writing" }) } }
  action written(l: int): bool = { val x = load.get(l) all { x.pc == "writing", files, becomes(l, { ...x, part: WHOLE, pc: "publish" }) } }
  action publish(l: int): bool = { val x = load.get(l) all { x.pc == "publish", month' = month.set(x.m, x.part), year' = year, faults' = faults, misled' = misled,
    becomes(l, { ...x, part: ABSENT, mine: x.mine.union(Set(x.m)), pc: "read" }) } }
  /// gone: it is looked for again
  action read(l: int): bool = { val x = load.get(l) all { x.pc == "read", month' = month, year' = year, faults' = faults,
    misled' = (misled or month.get(x.m) == TORN),
    becomes(l, if (month.get(x.m) == TORN) IDLE else if (month.get(x.m) == ABSENT) { ...x, pc: "look" }
      else if (x.m < N) { ...x, seen: x.seen.union(Set(x.m)), m: x.m + 1, pc: "look" } else { ...x, seen: x.seen.union(Set(x.m)), pc: "join" }) } }
  action join(l: int): bool = { val x = load.get(l) all { x.pc == "join", files, becomes(l, { ...x, part: TORN, pc: "joining" }) } }
  action joined(l: int): bool = { val x = load.get(l) all { x.pc == "joining", files, becomes(l, { ...x, part: WHOLE, pc: "publish year" }) } }
  action publishYear(l: int): bool = { val x = load.get(l) all { x.pc == "publish year", month' = month, year' = x.part, faults' = faults, misled' = misled,
    becomes(l, { ...x, part: ABSENT, pc: "drop" }) } }
  /// those that this load asked for, if they are still there
  action drop(l: int): bool = { val x = load.get(l) all { x.pc == "drop", year' = year, faults' = faults, misled' = misled,
    if (x.mine == Set()) all { month' = month, becomes(l, { ...x, pc: "given" }) }
    else { nondet k = x.mine.oneOf() all { month' = month.set(k, ABSENT), becomes(l, { ...x, mine: x.mine.exclude(Set(k)) }) } } } }
  action done(l: int): bool = { val x = load.get(l) all { x.pc == "given", files, becomes(l, IDLE) } }
  action die(l: int): bool = { val x = load.get(l)
    all { x.pc != "idle", x.pc != "given", faults < 2, month' = month, year' = year, faults' = faults + 1, misled' = misled, becomes(l, IDLE) } }
  action step = { nondet l = LOADS.oneOf()
    any { begin(l), look(l), ask(l), refused(l), write(l), written(l), publish(l), read(l), join(l), joined(l), publishYear(l), drop(l), done(l), die(l) } }

  val whole = year != TORN and MONTHS.forall(k => month.get(k) != TORN)
  val given = LOADS.forall(l => load.get(l).pc == "given" implies year == WHOLE)
  val complete = LOADS.forall(l => load.get(l).pc == "join" implies load.get(l).seen == MONTHS)
  /// nobody waits for ever: a month is asked for again once for each of the others, at most
  val bounded = LOADS.forall(l => load.get(l).asked <= 3 * N)
  /// nothing is left but the year, if nothing failed
  val tidy = (faults == 0 and year == WHOLE and LOADS.forall(l => load.get(l) == IDLE)) implies MONTHS.forall(k => month.get(k) == ABSENT)
  val sound = whole and given and complete and not(misled) and bounded and tidy
}
module loads2 { import loads(N = 2).* }
module loads3 { import loads(N = 3).* }
