/// Histories of loads, and of single requests, that die (C35)
module crashes {
  /// a load of a year or a request for a file; where it dies, if it does (every place there is, in turn, is the first of a history); whether
  /// the network fails
  type Op = { load: bool, dies: bool, place: int, failAt: int }
  var op: Op
  var age: int
  pure val LONG: int = 4
  action init = all { op' = { load: true, dies: false, place: 0, failAt: 0 }, age' = 0 }
  action step = {
    nondet k = 0.to(5).oneOf()
    nondet u = 0.to(1000000).oneOf()
    nondet f = 1.to(13).oneOf()
    val first = age % LONG == 0
    val last = age % LONG == LONG - 1
    all {
      op' = { load: first or last or k > 2, dies: first or (not(last) and k < 4), place: if (first) age / LONG else u, failAt: if (k == 5 and not(first) and not(last)) f else 0 },
      age' = age + 1
    }
  }
}
