/// C30: what a process was seen to be after each operation.
/// Record: [n, (operation, i, v, the value of each setting) x n]; a value that
/// the user never gave to a setting is -1
module conf_env {
  import fixed.* from "./fixed"
  import trace.* from "./trace"
  import env_rules.* from "./env_rules"

  pure def judge(rec: int): Verdict = {
    pure val r = unpack(rec)
    range(0, r[0]).foldl((PASS, START), (acc, k) => {
      pure val b = 1 + (3 + NS) * k
      pure val p = apply(acc._2, opOf(r[b], r[b + 1], r[b + 2]))
      (range(0, NS).foldl(acc._1, (v, i) =>
        v.clause("settings are the user's", [k, i, r[b], r[b + 1]], r[b + 3 + i] == p[i], r[b + 3 + i], p[i])), p)
    })._1
  }
}
