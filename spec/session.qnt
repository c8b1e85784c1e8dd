/// Sessions, at random (replayed into the code by C21)
module session {
  import session_rules.* from "./session_rules"
  var s: Session
  var last: Event
  var age: int
  var plan: int
  pure val CONTENTS: int = 10

  action doing(e: Event): bool = all { canDo(s, e), s' = apply(s, e), last' = e, age' = age + 1, plan' = plan }
  action init = all { s' = START, last' = Refused({ flaw: 0 }), age' = 0, plan' = 0 }
  action make = {
    nondet obj = 0.to(NOBJ - 1).oneOf()
    nondet uc = Set(0, 1, 2, 5, 6, 7, 3, 4).oneOf()
    nondet alg = 0.to(3).oneOf()
    nondet eng = 0.to(1).oneOf()
    nondet refr = 0.to(1).oneOf()
    nondet tb = 0.to(NBUF - 1).oneOf()
    nondet yb = 0.to(NBUF - 1).oneOf()
    nondet xb = 0.to(NBUF - 1).oneOf()
    doing(Make({ obj: obj, uc: if (uc > 4) uc - 5 else uc, alg: alg, eng: if (alg == 3) 1 else eng, refr: refr,
                 tb: tb, yb: yb, xb: xb }))
  }
  /// the same call again, for another result
  action again = {
    nondet from = 0.to(NOBJ - 1).oneOf()
    nondet to_ = 0.to(NOBJ - 1).oneOf()
    val c = s.objs[from]
    all {
      c != NONE, from != to_,
      range(0, NBUF).foldl(false, (b, k) => b or s.bufs[0][k] == c.t),
      range(0, NBUF).foldl(false, (b, k) => b or s.bufs[1][k] == c.y),
      range(0, NBUF).foldl(false, (b, k) => b or s.bufs[2][k] == c.x),
      def at(cls, v) = range(0, NBUF).foldl(0, (b, k) => if (s.bufs[cls][k] == v) k else b)
      doing(Make({ obj: to_, uc: c.uc, alg: c.alg, eng: c.eng, refr: c.refr, tb: at(0, c.t), yb: at(1, c.y), xb: at(2, c.x) }))
    }
  }
  action overwrite = {
    nondet cls = 0.to(2).oneOf()
    nondet buf = 0.to(NBUF - 1).oneOf()
    nondet content = 0.to(CONTENTS - 1).oneOf()
    doing(Overwrite({ cls: cls, buf: buf, content: content }))
  }
  action read = {
    nondet obj = 0.to(NOBJ - 1).oneOf()
    nondet acc = 0.to(20).oneOf()
    nondet arg = 0.to(11).oneOf()
    doing(Read({ obj: obj, acc: acc, arg: arg }))
  }
  action read2 = read
  action read3 = read
  action scribble = { nondet obj = 0.to(NOBJ - 1).oneOf() doing(Scribble({ obj: obj })) }
  action refused = { nondet flaw = 0.to(5).oneOf() doing(Refused({ flaw: flaw })) }
  /// sessions of 30 events, one after the other
  action step = if (age >= 30 ) all { s' = START, last' = Refused({ flaw: 0 }), age' = 0, plan' = plan }
    else if (age < 2) make
    else any { make, again, overwrite, read, read2, read3, scribble, refused }

  /// planned sessions: for every use case, algorithm, engine and class of buffer, a call, and then the same call with the
  /// buffer overwritten by each content, next to one another in time
  pure val PLANS: int = 63
  pure def planned(q: int, k: int): Event = {
    pure val uc = q % 3
    pure val cls = q / 3 % 3
    pure val alg = if (q / 9 == 6) 3 else q / 9 / 2
    pure val eng = if (alg == 3) 1 else q / 9 % 2
    pure val content = k / 8
    pure val buf = (q + content) % 3
    def call(obj) = Make({ obj: obj, uc: uc, alg: alg, eng: eng, refr: (q + content) % 2, tb: if (cls == 0) buf else 0,
                           yb: if (cls == 1) buf else 0, xb: if (cls == 2) buf else 0 })
    pure val e = k % 8
    if (e == 0) Overwrite({ cls: cls, buf: buf, content: 0 })
    else if (e == 1) call(0)
    else if (e == 2) Overwrite({ cls: cls, buf: buf, content: content })
    else if (e == 3) call(1)
    else if (e == 4) Read({ obj: 1, acc: 4, arg: 0 })
    else if (e == 5) Read({ obj: 1, acc: (k / 8 + q * 10) % 21, arg: (q + k) % 12 })
    else if (e == 6) Read({ obj: 0, acc: (k / 8 * 2 + q) % 21, arg: q % 12 })
    else Overwrite({ cls: cls, buf: buf, content: 0 })
  }
  action stepPlanned = if (age >= 8 * CONTENTS) all { s' = START, last' = Refused({ flaw: 0 }), age' = 0, plan' = plan + 1 }
    else doing(planned(plan % PLANS, age))

  /// results hold what the buffers held when they were made
  val noAliasing = match last {
    | Make(m) => s.objs[m.obj].t == s.bufs[0][m.tb] and s.objs[m.obj].y == s.bufs[1][m.yb]
    | _ => true
  }
}
