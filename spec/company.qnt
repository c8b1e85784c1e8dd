/// Scenario generator: whole requests (spec/company_rules.qnt).
module company {
  import fixed.* from "./fixed"
  import civil.* from "./civil"
  import gen_rules.* from "./gen_rules"
  import company_rules.* from "./company_rules"

  const ALG: int
  var q: { span: int, order: int, places: int, cs: List[Case] }

  action initCompany = { q' = { span: 0, order: 0, places: 0, cs: [] } }
  action gather = {
    nondet span = 0.to(NSPANS - 1).oneOf()
    nondet order = 0.to(NORDERS - 1).oneOf()
    nondet places = 0.to(NPLACES - 1).oneOf()
    nondet n = 0.to(length(SIZES) - 1).oneOf()
    nondet tc = 0.to(9).oneOf()
    nondet lc = 0.to(9).oneOf()
    nondet u = 0.to(1000000000000).oneOf()
    nondet v = 0.to(1000000000000).oneOf()
    q' = { span: span, order: order, places: places, cs: company(ALG, span, order, places, SIZES[n], tc, lc, u, v) }
  }
  /// the members are in the domain, in the order and in the period of the class
  val together = q.cs.indices().forall(k => {
    val c = q.cs[k]
    and {
      c.lat >= -90 * D1, c.lat <= 90 * D1, c.lon >= -180 * D1, c.lon < 180 * D1,
      c.t >= unixOf(1687, 1, 1, 0, 0, 0), c.t < unixOf(2263, 1, 1, 0, 0, 0),
      q.order == 3 or q.order == 4 or { val p = periodOf(q.span, q.cs[0].t) q.span == 7 or (c.t >= p._1 and c.t < p._2) },
      k == 0 or q.order == 0 or q.order == 5 or (if (q.order == 1 or q.order == 3) q.cs[k - 1].t <= c.t else q.cs[k - 1].t >= c.t),
      q.places != 1 or (c.lat == q.cs[0].lat and c.lon == q.cs[0].lon)
    }
  })
}
module company0 { import company(ALG = 0).* }
module company1 { import company(ALG = 1).* }
module company2 { import company(ALG = 2).* }
module company3 { import company(ALG = 3).* }
