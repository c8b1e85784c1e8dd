/// Calls, said little by little (C36)
module calls {
  import calls_rules.* from "./calls_rules"
  var c: Call
  var age: int
  action init = all { c' = { fn: 0, pos: [], kw: [], odd: 0 }, age' = 0 }
  def valuesOf(p: int): int = FUNCTIONS[c.fn].values[p]
  /// another call; what must be said is said by position, or not yet
  action begin = {
    nondet f = FUNCTIONS.indices().oneOf()
    nondet early = Set(0, 1).oneOf()
    nondet v = 0.to(127).oneOf()
    val n = FUNCTIONS[f].fallback.foldl(0, (a, x) => if (x < 0) a + 1 else a)
    all {
      c' = { fn: f, pos: range(0, if (early == 1) n else 0).foldl([], (a, p) => a.append((v / (if (p % 2 == 0) 1 else 3) + p) % FUNCTIONS[f].values[p])), kw: [], odd: 0 },
      age' = age + 1
    }
  }
  action place = all {
    c.odd == 0, c.kw == [], length(c.pos) < FUNCTIONS[c.fn].placed,
    nondet v = 0.to(valuesOf(length(c.pos)) - 1).oneOf()
    all { c' = { ...c, pos: c.pos.append(v) }, age' = age + 1 }
  }
  action name = {
    val free = FUNCTIONS[c.fn].values.indices().filter(p => p >= FUNCTIONS[c.fn].named and not(says(c, p)))
    all {
      c.odd == 0, free != Set(),
      nondet p = free.oneOf()
      nondet v = 0.to(valuesOf(p) - 1).oneOf()
      all { c' = { ...c, kw: c.kw.append({ p: p, v: v }) }, age' = age + 1 }
    }
  }
  action spoil = {
    nondet k = 1.to(3).oneOf()
    all {
      c.odd == 0, complete(c), k == 2 implies length(c.pos) > 0 and c.fn != AT, k == 3 implies length(c.pos) == FUNCTIONS[c.fn].placed,
      c' = { ...c, odd: k }, age' = age + 1
    }
  }
  action step = any { begin, place, place, name, name, name, name, spoil }

  val wellFormed = and {
    length(meaning(c)) == arity(c), length(c.pos) <= FUNCTIONS[c.fn].placed,
    c.kw.indices().forall(i => c.kw[i].p >= length(c.pos) and c.kw[i].p >= FUNCTIONS[c.fn].named and c.kw.indices().forall(j => i == j or c.kw[i].p != c.kw[j].p)),
    meaning(c).indices().forall(p => meaning(c)[p] < valuesOf(p) and (meaning(c)[p] < 0 iff FUNCTIONS[c.fn].fallback[p] < 0 and not(says(c, p))))
  }
  /// how it is said makes no difference: in the other order, or all of it by name
  val sameMeaning = and {
    meaning({ ...c, kw: c.kw.foldl([], (a, x) => [x].concat(a)) }) == meaning(c),
    meaning(spelled(c)) == meaning(c), complete(spelled(c)) iff complete(c)
  }
  val coherent = wellFormed and sameMeaning
  /// for exhaustive checking: one call, of any function
  action fresh = { nondet f = FUNCTIONS.indices().oneOf() all { c' = { fn: f, pos: [], kw: [], odd: 0 }, age' = 0 } }
  action bounded = any {
    all { c.odd == 0, c.kw == [], length(c.pos) < FUNCTIONS[c.fn].placed, nondet v = 0.to(valuesOf(length(c.pos)) - 1).oneOf() c' = { ...c, pos: c.pos.append(v) }, age' = 0 },
    { val free = FUNCTIONS[c.fn].values.indices().filter(p => p >= FUNCTIONS[c.fn].named and not(says(c, p)))
      all { c.odd == 0, free != Set(), length(c.kw) < 3, nondet p = free.oneOf() nondet v = 0.to(valuesOf(p) - 1).oneOf() c' = { ...c, kw: c.kw.append({ p: p, v: v }) }, age' = 0 } },
    { nondet k = 1.to(3).oneOf() all { c.odd == 0, complete(c), c' = { ...c, odd: k }, age' = 0 } }
  }
}
