/// Lives of results and of their copies, at random (replayed into the code by C33)
module copies {
  import copies_rules.* from "./copies_rules"
  var s: Caller
  var last: Event
  var age: int
  var made: Set[Req]

  action doing(e: Event): bool = all { canDo(s, e), s' = apply(s, e), last' = e, age' = age + 1,
    made' = match e { | Make(m) => made.union(Set(m.req)) | _ => made } }
  action init = all { s' = START, last' = Drop({ obj: 0 }), age' = 0, made' = Set() }
  action make = {
    nondet obj = 0.to(NOBJ - 1).oneOf()
    nondet uc = 0.to(2).oneOf()
    nondet alg = 0.to(3).oneOf()
    nondet eng = 0.to(1).oneOf()
    nondet refr = 0.to(1).oneOf()
    nondet zone = 0.to(3).oneOf()
    nondet t = 0.to(9).oneOf()
    nondet y = 0.to(9).oneOf()
    nondet x = 0.to(9).oneOf()
    doing(Make({ obj: obj, req: { uc: uc, alg: alg, eng: if (alg == 3) 1 else eng, refr: refr, zone: zone, t: t, y: y, x: x } }))
  }
  action copy = {
    nondet from_ = 0.to(NOBJ - 1).oneOf()
    nondet to_ = 0.to(NOBJ - 1).oneOf()
    nondet way = 0.to(NWAYS - 1).oneOf()
    all { from_ != to_, doing(Copy({ from_: from_, to_: to_, way: way })) }
  }
  action read = {
    nondet obj = 0.to(NOBJ - 1).oneOf()
    nondet acc = 0.to(22).oneOf()
    nondet arg = 0.to(11).oneOf()
    nondet away = Set(0, 1, 2, 3).oneOf()
    doing(Read({ obj: obj, acc: acc, arg: arg, away: if (away == 3) 1 else 0 }))
  }
  action read2 = read
  action read3 = read
  action copy2 = copy
  action scribble = { nondet obj = 0.to(NOBJ - 1).oneOf() doing(Scribble({ obj: obj })) }
  action drop = { nondet obj = 0.to(NOBJ - 1).oneOf() doing(Drop({ obj: obj })) }
  // lives of 40 events, one after the other
  action step = if (age >= 40) all { s' = START, last' = Drop({ obj: 0 }), age' = 0, made' = Set() }
    else if (age < 1) make
    else any { make, copy, copy2, read, read2, read3, scribble, drop }

  /// every holder holds a request that was made; those that share a heap hold the same
  val descends = 0.to(NOBJ - 1).forall(k => s.objs[k] == EMPTY or (made.contains(s.objs[k].req) and s.objs[k].heap < s.heaps and
    0.to(NOBJ - 1).forall(j => s.objs[j].heap != s.objs[k].heap or s.objs[j].req == s.objs[k].req)))
  /// nobody still holds a heap that was written in
  val unspoilt = match last {
    | Scribble(b) => s.objs[b.obj] == EMPTY
    | _ => true
  }
  val sound = descends and unspoilt
}
