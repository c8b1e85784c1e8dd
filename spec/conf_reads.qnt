/// A table of what was read: what is read is a function of its key (C21, C22)
module conf_reads {
  import fixed.* from "./fixed"
  import trace.* from "./trace"
  import session_rules.* from "./session_rules"

  type St = { s: Session, p: int, table: List[int] -> List[int], v: Verdict }

  pure def same(kind: int, a: int, b: int): bool =
    if (isNum(a) and isNum(b)) iabs(a - b) <= (if (kind == 1) 1000000 else 1000000000 + iabs(a) / 1000000000) else a == b

  pure def looked(st: St, k: int, ky: List[int], r: List[int], at: int): St = {
    pure val m = r[at + 1]
    pure val vals = r.slice(at, at + 2 + m)
    if (ky.in(st.table.keys())) {
      pure val w = st.table.get(ky)
      pure val ok = w[0] == vals[0] and length(w) == length(vals)
      pure val bad = if (not(ok)) 0 else range(2, length(vals)).foldl(-1, (b, j) => if (b < 0 and not(same(w[0], vals[j], w[j]))) j else b)
      { ...st, v: st.v.clause("a function of the arguments", [k], bad < 0, if (bad >= 0 and bad < length(vals)) vals[bad] else 0,
          if (bad >= 0 and bad < length(w)) w[bad] else 0), p: at + 2 + m }
    } else { ...st, table: st.table.put(ky, vals), p: at + 2 + m }
  }
}
