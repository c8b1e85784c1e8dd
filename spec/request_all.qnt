/// Every request of the model, for exhaustive checking with TLC
module request_all {
  import request_rules.* from "./request_rules"
  var r: Request
  var phase: Phase
  action init = {
    nondet uc = 0.to(2).oneOf()
    nondet alg = 0.to(5).oneOf()
    nondet eng = 0.to(2).oneOf()
    nondet nt = Set(3, 2, 0, -1, -2, 1).oneOf()
    nondet ny = Set(3, 2, 0, -1, -2, 1).oneOf()
    nondet nx = Set(3, 2, 0, -1, -2, 1).oneOf()
    nondet yv = 0.to(5).oneOf()
    nondet xv = 0.to(6).oneOf()
    all { r' = { uc: uc, alg: alg, eng: eng, nt: nt, ny: ny, nx: nx, yv: yv, xv: xv, pos: 0, form: 0 }, phase' = Draft }
  }
  action step = any {
    all { phase == Draft, phase' = phaseOf(r), r' = r },
    all { phase != Draft, phase' = phase, r' = r }
  }
  /// no request is served twice or after being rejected, and verdicts follow the rules
  val decided = phase == Draft or coherent(r, phase)
}
