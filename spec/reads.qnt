/// A reader of a result: an arbitrary history of reads (C14, C21). Reading has
/// no effect: what a read returns does not depend on the history.
module reads {
  /// acc: accessor number; arg: its arguments, by number
  type Read = { acc: int, arg: int }
  var history: List[Read]
  var case_: { alg: int, eng: int, uc: int, refr: int, t: int, lat: int, lon: int }
  pure val NACC: int = 21

  action init = all {
    history' = [],
    case_' = { alg: 0, eng: 1, uc: 0, refr: 1, t: 0, lat: 0, lon: 0 }
  }
  /// a new result to be read
  action create = {
    nondet alg = 0.to(3).oneOf()
    nondet eng = 0.to(1).oneOf()
    nondet uc = 0.to(2).oneOf()
    nondet refr = 0.to(1).oneOf()
    nondet t = 1500000000.to(1900000000).oneOf()
    nondet lat = (-90).to(90).oneOf()
    nondet lon = (-180).to(179).oneOf()
    all {
      history' = [],
      case_' = { alg: alg, eng: if (alg == 3) 1 else eng, uc: uc, refr: refr, t: t, lat: lat, lon: lon }
    }
  }
  action read = {
    nondet acc = 0.to(NACC - 1).oneOf()
    nondet arg = 0.to(11).oneOf()
    all { length(history) < 14, history' = history.append({ acc: acc, arg: arg }), case_' = case_ }
  }
  action step = if (length(history) >= 14 or case_.t == 0) create else read
  val sane = length(history) <= 14 and (case_.alg == 3 implies case_.eng == 1)
}
