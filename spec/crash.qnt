/// Loading the ephemeris of a year, file by file, and dying anywhere on the way (C35).
/// A file is absent, torn or whole. What is written has a name of its own until it is whole: `whole` is why no
/// later load is misled, and `given` what a load owes whatever happened before it.
module crash {
  pure val ABSENT: int = 0
  pure val TORN: int = 1
  pure val WHOLE: int = 2
  pure val MONTHS: Set[int] = 1.to(3)
  var month: int -> int       // the monthly replies
  var year: int               // the year
  var part: int               // what is being written
  var pc: str
  var m: int                  // month at hand
  var mine: Set[int]          // months this load has asked for
  var seen: Set[int]          // months this load has read
  var deaths: int
  action init = all { month' = MONTHS.mapBy(k => ABSENT), year' = ABSENT, part' = ABSENT, pc' = "idle", m' = 0, mine' = Set(), seen' = Set(), deaths' = 0 }
  action same = all { month' = month, year' = year, mine' = mine, seen' = seen, deaths' = deaths }
  action begin = all { pc == "idle", month' = month, year' = year, part' = ABSENT, mine' = Set(), seen' = Set(), deaths' = deaths,
    if (year != ABSENT) all { pc' = "given", m' = 0 } else all { pc' = "look", m' = 1 } }
  action look = all { pc == "look", same, part' = part, m' = m, pc' = if (month.get(m) == ABSENT) "ask" else "read" }
  /// the network answers, or does not: then the load raises
  action ask = all { pc == "ask", same, part' = part, m' = m, any { pc' = "write", pc' = "idle" } }
  action write = all { pc == "write", same, m' = m, part' = TORN, pc' = "writing" }
  action written = all { pc == "writing", same, m' = m, part' = WHOLE, pc' = "publish" }
  action publish = all { pc == "publish", month' = month.set(m, part), year' = year, part' = ABSENT, m' = m, mine' = mine.union(Set(m)), seen' = seen,
    deaths' = deaths, pc' = "read" }
  /// a torn reply cannot be read: the load raises
  action read = all { pc == "read", month' = month, year' = year, part' = part, mine' = mine, deaths' = deaths,
    if (month.get(m) != WHOLE) all { pc' = "idle", m' = m, seen' = seen }
    else all { seen' = seen.union(Set(m)), if (m < 3) all { pc' = "look", m' = m + 1 } else all { pc' = "join", m' = m } } }
  action join = all { pc == "join", same, m' = m, part' = TORN, pc' = "joining" }
  action joined = all { pc == "joining", same, m' = m, part' = WHOLE, pc' = "publish year" }
  action publishYear = all { pc == "publish year", month' = month, year' = part, part' = ABSENT, m' = m, mine' = mine, seen' = seen, deaths' = deaths, pc' = "drop" }
  action drop = all { pc == "drop", year' = year, part' = part, m' = m, seen' = seen, deaths' = deaths,
    if (mine == Set()) all { pc' = "given", month' = month, mine' = mine }
    else { nondet k = mine.oneOf() all { month' = month.set(k, ABSENT), mine' = mine.exclude(Set(k)), pc' = "drop" } } }
  action done = all { pc == "given", same, part' = part, m' = m, pc' = "idle" }
  action die = all { pc != "idle", pc != "given", deaths < 3, month' = month, year' = year, part' = part, m' = 0, mine' = Set(), seen' = Set(), deaths' = deaths + 1, pc' = "idle" }
  action step = any { begin, look, ask, write, written, publish, read, join, joined, publishYear, drop, done, die }

  val whole = year != TORN and MONTHS.forall(k => month.get(k) != TORN)
  val given = pc == "given" implies year == WHOLE
  val complete = pc == "join" implies seen == MONTHS
  val sound = whole and given and complete
}
