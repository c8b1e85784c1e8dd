/// Results as values (C33): a caller holds results and copies of them. A copy is
/// made in several ways; some share what the result holds (its heap), others not.
/// What a holder reads is a function of the request only; what is written in the
/// arrays that were read from a holder can only be seen by holders of the same heap.
module copies_rules {
  pure val NOBJ: int = 6
  /// the request a result was made with: use case, algorithm, engine, refraction,
  /// time zone, contents of times, latitude and longitude
  type Req = { uc: int, alg: int, eng: int, refr: int, zone: int, t: int, y: int, x: int }
  type Holder = { heap: int, req: Req }
  pure val NOREQ: Req = { uc: -1, alg: 0, eng: 0, refr: 0, zone: 0, t: 0, y: 0, x: 0 }
  pure val EMPTY: Holder = { heap: -1, req: NOREQ }

  /// ways of copying: 0 copy.copy, 1 copy.deepcopy, 2 to 5 pickle (protocols 2 to 5),
  /// 6 sent to another process and back, 7 deep copy of a list that holds it twice
  pure val NWAYS: int = 8
  pure def shares(way: int): bool = way == 0

  type Event =
    | Make({ obj: int, req: Req })
    | Copy({ from_: int, to_: int, way: int })
    | Read({ obj: int, acc: int, arg: int, away: int })       // away: 1 in another process
    | Scribble({ obj: int })                                  // writes in what it reads from a holder
    | Drop({ obj: int })                                      // forgets a holder

  type Caller = { objs: List[Holder], heaps: int }
  pure val START: Caller = { objs: [EMPTY, EMPTY, EMPTY, EMPTY, EMPTY, EMPTY], heaps: 0 }

  pure def apply(s: Caller, e: Event): Caller = match e {
    | Make(m) => { objs: s.objs.replaceAt(m.obj, { heap: s.heaps, req: m.req }), heaps: s.heaps + 1 }
    | Copy(c) =>
        if (shares(c.way)) { ...s, objs: s.objs.replaceAt(c.to_, s.objs[c.from_]) }
        else { objs: s.objs.replaceAt(c.to_, { heap: s.heaps, req: s.objs[c.from_].req }), heaps: s.heaps + 1 }
    | Read(_) => s
    // every holder of the heap is spoilt, and dropped
    | Scribble(b) => { ...s, objs: [0, 1, 2, 3, 4, 5].foldl([], (l, k) =>
        l.append(if (s.objs[k].heap == s.objs[b.obj].heap) EMPTY else s.objs[k])) }
    | Drop(d) => { ...s, objs: s.objs.replaceAt(d.obj, EMPTY) }
  }
  pure def canDo(s: Caller, e: Event): bool = match e {
    | Make(_) => true
    | Copy(c) => s.objs[c.from_] != EMPTY
    | Read(r) => s.objs[r.obj] != EMPTY
    | Scribble(b) => s.objs[b.obj] != EMPTY
    | Drop(d) => s.objs[d.obj] != EMPTY
  }
  /// what is read is a function of this
  pure def key(q: Req, acc: int, arg: int): List[int] = [q.uc, q.alg, q.eng, q.refr, q.zone, q.t, q.y, q.x, acc, arg]
}
