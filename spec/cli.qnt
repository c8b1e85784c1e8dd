/// A user of the command line (C24)
module cli {
  import fixed.* from "./fixed"
  import civil.* from "./civil"
  import cli_rules.* from "./cli_rules"
  import zones.* from "./zones"
  type Outcome = Printed(int) | Refused | Waiting
  var q: Order
  var outcome: Outcome
  /// flaws: 1 hemisphere of the latitude; 2 none; 3 latitude above 90; 4 longitude of 180E or more; 5 hemisphere of the
  /// longitude; 6 unknown zone; 7 unknown algorithm; 8 no time at all; 9 no such date; 10 latitude not a number;
  /// 11 longitude beyond 180W; 12 no such hour; 13 longitude not a number; 14 latitude with an E
  action initCli = all { q' = { zone: 0, w: 0, lat4: 0, lon4: 0, alg: 0, refr: 0, tf: 0, flaw: 0 }, outcome' = Waiting, init }
  action order = {
    nondet zone = 0.to(NZONES - 1).oneOf()
    nondet k = 0.to(5).oneOf()
    nondet u = 0.to(1000000000).oneOf()
    nondet v = 0.to(1000000000).oneOf()
    nondet y = 0.to(10).oneOf()
    nondet alg = 0.to(3).oneOf()
    nondet refr = 0.to(2).oneOf()
    nondet tf = 0.to(5).oneOf()
    nondet flaw = 0.to(60).oneOf()
    val t = instantIn(zone, k, u, v)
    val o = if (u % 5 == 0) 0 else utcOffset(zone, t)
    val w0 = t + o
    // date only, or minutes only
    val w = if (tf == 4) w0 - w0 % 86400 else if (tf == 1) w0 - w0 % 60 else w0
    val lat4 = if (y == 0) 900000 else if (y == 1) -900000 else if (y == 2) 0 else if (y == 3) 660000 + v % 60000
               else if (y == 4) -(650000 + v % 60000) else if (y == 5) 10000 * (v % 181 - 90) else v % 1800001 - 900000
    val lon4 = if (y == 6) -1800000 else if (y == 7) 1799999 else if (y == 8) 10000 * (u % 360 - 180) else u % 3600000 - 1800000
    val r = { zone: zone, w: w, lat4: lat4, lon4: lon4, alg: alg, refr: refr, tf: tf, flaw: if (flaw > 14) 0 else flaw }
    all { q' = r, outcome' = if (accepted(r)) Printed(instantOf(r)) else Refused, c' = c }
  }
  val coherent = match outcome {
    | Printed(t) => q.flaw == 0 and t + utcOffset(q.zone, t) == q.w
    | Refused => q.flaw > 0 or instants(q.zone, q.w).size() != 1
    | Waiting => true
  }
}
