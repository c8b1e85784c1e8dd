/// All the sessions of a small caller, for exhaustive checking: the contents a
/// result was made from are never affected by what the caller does afterwards.
module session_all {
  import session_rules.* from "./session_rules"
  var s: Session
  /// ghost: for each result, the contents of the buffers at the time of the call
  var made: List[List[int]]

  action doing(e: Event): bool = all {
    canDo(s, e),
    s' = apply(s, e),
    made' = match e {
      | Make(m) => made.replaceAt(m.obj, [s.bufs[0][m.tb], s.bufs[1][m.yb], s.bufs[2][m.xb]])
      | _ => made
    }
  }
  action init = {
    s' = { bufs: [[0, 1], [0], [0]], objs: [NONE, NONE] }
    and made' = [[], []]
  }
  action make = { nondet obj = 0.to(1).oneOf() nondet tb = 0.to(1).oneOf()
    doing(Make({ obj: obj, uc: 0, alg: 0, eng: 0, refr: 0, tb: tb, yb: 0, xb: 0 })) }
  action overwrite = { nondet cls = 0.to(1).oneOf() nondet buf = 0.to(1).oneOf() nondet content = 0.to(1).oneOf()
    all { cls == 0 or buf == 0, doing(Overwrite({ cls: cls, buf: buf, content: content })) } }
  action read = { nondet obj = 0.to(1).oneOf() doing(Read({ obj: obj, acc: 0, arg: 0 })) }
  action scribble = { nondet obj = 0.to(1).oneOf() doing(Scribble({ obj: obj })) }
  action step = any { make, overwrite, read, scribble, doing(Refused({ flaw: 0 })) }
  val kept = range(0, 2).foldl(true, (ok, k) => ok and
    (s.objs[k] == NONE or [s.objs[k].t, s.objs[k].y, s.objs[k].x] == made[k]))
}
