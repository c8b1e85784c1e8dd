/// The admission of requests (C10), as a machine that drafts requests: complete
/// enumerations of some of their classes, and random ones.
module request {
  import request_rules.* from "./request_rules"
  // ------------------------------------------------------------- the machine
  var r: Request
  var phase: Phase
  var k: int                 // used by the enumerations

  pure val PLAIN: Request = { uc: 0, alg: 0, eng: 1, nt: 3, ny: 3, nx: 3, yv: 0, xv: 0, pos: 0, form: 0 }
  pure val SIZES: List[int] = [3, 0, 2, -1, -2, 1]
  action verdict(q: Request): bool = all {
    r' = q, phase' = phaseOf(q)
  }
  /// every combination of use case, algorithm and engine
  action initE = all { verdict(PLAIN), k' = 0 }
  action stepNames = all {
    k < 54,
    k' = k + 1,
    verdict({ ...PLAIN, uc: k % 3, alg: (k / 3) % 6, eng: k / 18 })
  }
  /// every combination of use case and sizes
  action stepSizes = all {
    k < 648,
    k' = k + 1,
    verdict({ ...PLAIN, uc: k % 3, nt: SIZES[(k / 3) % 6], ny: SIZES[(k / 18) % 6], nx: SIZES[k / 108],
              alg: k % 4, form: k % 4 })
  }
  /// every combination of use case and values
  action stepValues = all {
    k < 504,
    k' = k + 1,
    verdict({ ...PLAIN, uc: k % 3, yv: (k / 3) % 6, xv: (k / 18) % 7, pos: (k / 126) % 3,
              form: k % 4, alg: (k / 7) % 4, nt: 3 })
  }
  /// anything
  action any_ = {
    nondet uc = 0.to(2).oneOf()
    nondet alg = 0.to(5).oneOf()
    nondet eng = 0.to(2).oneOf()
    nondet nt = Set(3, 3, 2, 0, -1, -2, 1).oneOf()
    nondet ny = Set(3, 2, 0, -1, -2, 1).oneOf()
    nondet nx = Set(3, 2, 0, -1, -2, 1).oneOf()
    nondet yv = 0.to(5).oneOf()
    nondet xv = 0.to(6).oneOf()
    nondet pos = 0.to(2).oneOf()
    nondet form = 0.to(3).oneOf()
    verdict({ uc: uc, alg: alg, eng: eng, nt: nt, ny: ny, nx: nx, yv: yv, xv: xv, pos: pos, form: form })
  }
  /// mostly admissible requests, with at most two flaws
  action stepNear = {
    nondet uc = 0.to(2).oneOf()
    nondet alg = 0.to(3).oneOf()
    nondet n = Set(1, 2, 3, 0).oneOf()
    nondet flaw1 = 0.to(14).oneOf()
    nondet flaw2 = 0.to(7).oneOf()
    nondet pos = 0.to(2).oneOf()
    nondet form = 0.to(3).oneOf()
    val q0 = { ...PLAIN, uc: uc, alg: alg, nt: n, ny: n, nx: n, pos: pos, form: form }
    def flaw(q, f) =
      if (f == 1) { ...q, yv: 1 } else if (f == 2) { ...q, xv: 1 } else if (f == 3) { ...q, yv: 2 }
      else if (f == 4) { ...q, xv: 2 } else if (f == 5) { ...q, eng: 0 } else if (f == 6) { ...q, nt: 5 }
      else if (f == 7) { ...q, ny: 4 } else if (f == 8) { ...q, nx: 4 } else if (f == 9) { ...q, xv: 3 }
      else if (f == 10) { ...q, yv: 3 } else if (f == 11) { ...q, xv: 4 } else if (f == 12) { ...q, yv: 4 }
      else if (f == 13) { ...q, alg: 4 } else if (f == 14) { ...q, xv: 5 } else q
    all { verdict(flaw(flaw(q0, flaw1), flaw2)), k' = k + 1 }
  }
  action stepAny = all { any_, k' = k + 1 }
  action initAny = all { any_, k' = 0 }
  val decided = coherent(r, phase)
}
