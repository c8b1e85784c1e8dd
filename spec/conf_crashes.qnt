/// C35: what was found after deaths.
/// Record: [n, (1 load 0 request; dies; failAt; outcome 0 given 2 raised 3 died; requests; rows; right rows?; is the file asked for there,
///   0 no 1 whole 2 torn) x n]
module conf_crashes {
  import fixed.* from "./fixed"
  import trace.* from "./trace"
  pure def judge(rec: int): Verdict = {
    pure val r = unpack(rec)
    range(0, r[0]).foldl({ v: PASS, kept: false }, (a, k) => {
      pure val p = 1 + 8 * k
      pure val load = r[p] == 1
      pure val fine = r[p + 2] == 0 or a.kept
      pure val v1 = a.v.clause("given, whatever died before", [k], r[p + 3] == 0 or (r[p + 3] == 3 and r[p + 1] == 1) or (r[p + 3] == 2 and not(fine)), r[p + 3], 0)
      pure val v2 = if (load and r[p + 3] == 0) v1.clause("all of the year, once", [k], r[p + 5] == 36 and r[p + 6] == 1, r[p + 5], 36) else v1
      pure val v3 = if (load and a.kept) v2.clause("what is kept is not requested", [k], r[p + 4] == 0, r[p + 4], 0) else v2
      pure val v4 = if (load) v3 else v3.clause("a file is whole or is not there", [k], r[p + 7] != 2 and (r[p + 3] == 0 implies r[p + 7] == 1), r[p + 7], 1)
      { v: v4, kept: a.kept or (load and r[p + 3] == 0) }
    }).v
  }
}
