/// A session: a caller with argument buffers that it may overwrite at any time,
/// and the results it holds (C21). What a buffer holds is a number (a content);
/// the harness knows which instants or coordinates a content stands for.
module session_rules {
  pure val NBUF: int = 3
  pure val NOBJ: int = 4
  /// what a call was made with: use case (0 to 2: sites, regular_grid,
  /// transect; 3: true_solar_time; 4: universal_time_coordinated), algorithm,
  /// engine, refraction and the contents of times, latitude and longitude
  type Call = { uc: int, alg: int, eng: int, refr: int, t: int, y: int, x: int }
  pure val NONE: Call = { uc: -1, alg: 0, eng: 0, refr: 0, t: 0, y: 0, x: 0 }

  type Event =
    | Make({ obj: int, uc: int, alg: int, eng: int, refr: int, tb: int, yb: int, xb: int })   // from buffers
    | Overwrite({ cls: int, buf: int, content: int })      // the caller writes in a buffer: 0 times 1 lat 2 lon
    | Read({ obj: int, acc: int, arg: int })
    | Scribble({ obj: int })            // the caller writes in what the result gave, then drops it
    | Refused({ flaw: int })            // a call that raises

  type Session = { bufs: List[List[int]], objs: List[Call] }
  pure val START: Session = { bufs: [[0, 1, 2], [0, 1, 2], [0, 1, 2]], objs: [NONE, NONE, NONE, NONE] }

  pure def apply(s: Session, e: Event): Session = match e {
    | Make(m) => { ...s, objs: s.objs.replaceAt(m.obj, { uc: m.uc, alg: m.alg, eng: m.eng, refr: m.refr,
        t: s.bufs[0][m.tb], y: s.bufs[1][m.yb], x: s.bufs[2][m.xb] }) }
    | Overwrite(w) => { ...s, bufs: s.bufs.replaceAt(w.cls, s.bufs[w.cls].replaceAt(w.buf, w.content)) }
    | Read(_) => s
    | Scribble(b) => { ...s, objs: s.objs.replaceAt(b.obj, NONE) }
    | Refused(_) => s
  }
  pure def canDo(s: Session, e: Event): bool = match e {
    | Read(r) => s.objs[r.obj] != NONE
    | Scribble(b) => s.objs[b.obj] != NONE
    | _ => true
  }
  /// the value of a read is a function of this, and of nothing else
  pure def key(c: Call, acc: int, arg: int): List[int] =
    [c.uc, c.alg, c.eng, c.refr, c.t, if (c.uc >= 3) -1 else c.y, c.x, if (c.uc >= 3) -1 else acc, if (c.uc >= 3) -1 else arg]
}
