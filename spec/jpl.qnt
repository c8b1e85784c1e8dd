/// Users of JPL Horizons (C25): requests, replies and histories of loads
module jpl {
  import fixed.* from "./fixed"
  import civil.* from "./civil"
  import jpl_rules.* from "./jpl_rules"
  var ask: Ask
  var reply: List[Line]
  var store: Store
  var event: { year: int, site: int, failAt: int, error: bool, given: bool, quiet: bool }
  var age: int

  action init = all {
    ask' = { start: 0, stop: 0, step: 1, lon6: 0, lat6: 0, elev: 0 },
    reply' = [],
    store' = EMPTY,
    event' = { year: 0, site: 0, failAt: 0, error: false, given: false, quiet: false },
    age' = 0
  }
  /// requests, many of them about as long as it is allowed
  action stepAsk = {
    nondet k = 0.to(9).oneOf()
    nondet u = 0.to(1000000000).oneOf()
    nondet v = 0.to(1000000000).oneOf()
    val step_ = if (k % 3 == 0) 1 else if (k % 3 == 1) 12 else 1 + v % 90
    val n = if (k == 0) 90024 else if (k == 1) 90025 else if (k == 2) 90023 else if (k == 3) 90024 + 1 + u % 500 else if (k == 4) 1
            else if (k == 5) 2 + u % 100000 else 1 + u % 5000
    val start = 15778080 + u % 31556160 - u % 60 * (k % 2)
    // the end of the period may fall short of another step
    val stop = start + (n - 1) * step_ + (if (k == 8) 0 else v % step_)
    all {
      ask' = { start: start, stop: stop, step: step_, lon6: v % 360000000 - 180000000, lat6: u % 180000001 - 90000000,
               elev: if (k == 7) -(u % 400) else u % 5000 },
      reply' = reply, store' = store, event' = event, age' = age + 1
    }
  }
  /// replies
  action stepReply = {
    nondet n = Set(1, 2, 3, 5, 7).oneOf()
    nondet u = 0.to(1000000000).oneOf()
    nondet v = 0.to(1000000000).oneOf()
    nondet dt = Set(60, 1, 720, 3600, 86400).oneOf()
    all {
      reply' = range(0, n).foldl([], (l, k) => l.append({ t: 631152000 + u % 1800000000 + k * dt,
        az: if (k == 2) 0 else if (k == 3) 359999999 else (v + k * 12345678) % 360000000,
        el: if (k == 1) -90000000 + v % 1000 else (u + k * 7654321) % 180000001 - 90000000,
        r: 983000000000 + (u * 31 + v + k * 1001) % 34000000000, mark: (u + k) % 12 })),
      ask' = ask, store' = store, event' = event, age' = age + 1
    }
  }
  /// histories of loads of two years at four sites (two of them a few metres apart, two mirrored), six loads each
  action stepLoad = {
    nondet year = Set(2023, 2024).oneOf()
    nondet site = Set(0, 1, 2, 3).oneOf()
    nondet failAt = Set(0, 0 + 0, 1, 2, 6, 12).oneOf()
    nondet fails = 0.to(1).oneOf()
    // does the network fail, or does Horizons reply with an error?
    nondet error = Set(false, true).oneOf()
    val f = if (fails == 0) 0 else failAt
    val k = { year: year, site: site }
    val s = if (age % 6 == 0) EMPTY else store
    all {
      event' = { year: year, site: site, failAt: f, error: error, given: gives(s, k, f), quiet: s.whole.contains(k) },
      store' = load(s, k, f),
      ask' = ask, reply' = reply, age' = age + 1
    }
  }
  /// a year is given, and kept, unless the network fails
  val kept = event.year == 0 or (event.given == store.whole.contains({ year: event.year, site: event.site })
    and (event.failAt == 0 implies event.given))
  val askSane = allowed(ask) == (lines(ask) <= 90024) and lines(ask) >= 1
}
