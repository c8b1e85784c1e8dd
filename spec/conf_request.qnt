/// C10: the outcome of requests.
/// Record: [uc, alg, eng, nt, ny, nx, yv, xv, pos, form, is the algorithm advertised, outcome, rank, sizes..]
/// outcome 0: a result; 1: ValueError; 2: another exception
module conf_request {
  import trace.* from "./trace"
  import request_rules.* from "./request_rules"

  pure def judge(rec: int): Verdict = {
    pure val f = unpack(rec)
    pure val q = { uc: f[0], alg: f[1], eng: f[2], nt: f[3], ny: f[4], nx: f[5], yv: f[6], xv: f[7], pos: f[8], form: f[9] }
    pure val ok = served(q)
    pure val v = PASS.clause("served or rejected", [], (f[11] == 0) == ok, f[11], if (ok) 0 else 1)
      .clause("advertised algorithms", [], (f[10] == 1) == not(badAlgorithm(q)), f[10], q.alg)
      .clause("kind of exception", [], mustBeValueError(q) implies f[11] <= 1, f[11], 1)
    if (ok and f[11] == 0)
      v.clause("shape", [], f[12] == length(shapeOf(q)) and
        range(0, length(shapeOf(q))).foldl(true, (b, i) => b and f[13 + i] == shapeOf(q)[i]), f[12], length(shapeOf(q)))
    else v
  }
}
