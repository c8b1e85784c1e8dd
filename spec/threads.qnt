/// Programs of several threads, and schedules of them (C22). A thread makes
/// results (Make) and reads its last one or the one they all share (Look).
/// A schedule is a list of quanta: which thread, and how many lines of the
/// library it executes; it is repeated until all threads are done.
module threads {
  import session_rules.* from "./session_rules"
  type Op = Build(Call) | Look({ shared: bool, acc: int, arg: int })
  type Quantum = { th: int, lines: int }
  var shared: Call
  var progs: List[List[Op]]
  var sched: List[Quantum]
  var age: int

  pure val P0: List[List[Op]] = [[], [], []]
  action init = all { shared' = NONE, progs' = P0, sched' = [], age' = 0 }
  action newShared = {
    nondet uc = 0.to(2).oneOf()
    nondet alg = 0.to(3).oneOf()
    nondet t = 0.to(7).oneOf()
    nondet y = 0.to(7).oneOf()
    nondet x = 0.to(7).oneOf()
    nondet refr = 0.to(1).oneOf()
    all { shared' = { uc: uc, alg: alg, eng: 1, refr: refr, t: t, y: y, x: x }, progs' = P0, sched' = [], age' = 1 }
  }
  action addBuild = {
    nondet uc = Set(0, 1, 2, 5, 6, 7, 3, 4).oneOf()
    nondet alg = 0.to(3).oneOf()
    nondet eng = Set(0, 1, 2).oneOf()
    nondet refr = 0.to(1).oneOf()
    nondet t = 0.to(7).oneOf()
    nondet y = 0.to(7).oneOf()
    nondet x = 0.to(7).oneOf()
    nondet like = 0.to(2).oneOf()
    val th = age % 3
    // often the same algorithm as the others: what they might trip over
    val a = if (like == 0) alg else shared.alg
    all {
      progs' = progs.replaceAt(th, progs[th].append(Build({ uc: if (uc > 4) uc - 5 else uc, alg: a,
        eng: if (a == 3 or eng == 2) 1 else eng, refr: refr, t: t, y: y, x: x }))),
      shared' = shared, sched' = sched, age' = age + 1
    }
  }
  action addLook = {
    nondet sh = 0.to(1).oneOf()
    nondet acc = 0.to(20).oneOf()
    nondet arg = 0.to(11).oneOf()
    val th = age % 3
    all {
      progs' = progs.replaceAt(th, progs[th].append(Look({ shared: sh == 0, acc: acc, arg: arg }))),
      shared' = shared, sched' = sched, age' = age + 1
    }
  }
  action addQuantum = {
    nondet th = 0.to(2).oneOf()
    nondet lines = Set(1, 2, 3, 4, 5, 6, 7, 9, 12, 17, 25, 40).oneOf()
    all { sched' = sched.append({ th: th, lines: lines }), progs' = progs, shared' = shared, age' = age + 1 }
  }
  action step = if (age == 0 or age >= 46) newShared
    else if (age <= 3) addBuild
    else if (age <= 15) any { addLook, addLook2, addBuild }
    else addQuantum
  action addLook2 = addLook
  val sane = progs.length() == 3 and range(0, 3).foldl(true, (b, k) => b and
    (progs[k].length() == 0 or match progs[k][0] { | Build(_) => true | Look(_) => false }))
}
