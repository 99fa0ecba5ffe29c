// Generator: sequences of bodies handed to a builder, some of them cut out of
// lattices or sampled at random.
module gen_body {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import sdf.* from "./sdf"
  import sdfgen.* from "./sdfgen"
  import body.* from "./body"
  import scen.rnd from "./scen"
  import scen.srnd from "./scen"
  import scen.odd from "./scen"
  const DIMS: Set[int]

  type Body = { rigid: bool, nrm: bool, opt: Opt, h: int, ppc: int, pts: List[Item], nv: List[List[int]] }
  // mode: 0 regular, 1 Gauss-Legendre, 2 random; via: how the shape is placed: 0 state, 1 centre and rotation, 2 centre, 3 nothing
  type Cut = { mode: int, via: int, o: Sdf, lo: List[int], hi: List[int], h: int, ppc: int, num: int, key: int }
  var dim: int
  var bodies: List[Body]
  var cuts: List[Cut]
  var seed: int

  pure def vec(d: int, s: int, i: int, u: int): List[int] = [srnd(s, i, 40) * u / 16, srnd(s, i + 1, 40) * u / 16, if (d == 3) srnd(s, i + 2, 40) * u / 16 else 0]
  pure def mkItem(d: int, s: int, i: int): Item = {
    x: vec(d, s, i, ONE), v: vec(d, s, i + 3, ONE), f: vec(d, s, i + 6, ONE), m: (1 + rnd(s, i + 9, 60)) * ONE / 8,
    vol: (1 + rnd(s, i + 10, 60)) * ONE / 32, vol0: (1 + rnd(s, i + 11, 60)) * ONE / 32,
    L: range(0, 9).foldl([], (l, j) => l.append(srnd(s, i + 12 + j, 40) * ONE / 8)),
    s: range(0, 9).foldl([], (l, j) => l.append(srnd(s, i + 21 + j, 400) * ONE / 4)),
    F: madd(IM, range(0, 9).foldl([], (l, j) => l.append(odd(s, i + 30 + j, 30) * ONE / 256))),
    dens: (1 + rnd(s, i + 39, 60)) * 32 * ONE }
  pure def mkBody(d: int, s: int): Body = {
    val n = 1 + rnd(s, 1, 4)
    pure def b(j: int): bool = rnd(s, 10 + j, 2) == 0
    val o = { vel: b(0), force: b(1), mass: b(2), vol: b(3), vol0: b(3) and b(4), L: b(5), stress: b(6), F: b(7), store: b(8), cell: b(9), ppc: b(10), dens: b(11) and not(b(2)) }
    { rigid: rnd(s, 2, 5) == 0, nrm: b(12), opt: o, h: [ONE / 4, ONE / 2, ONE / 10, R(2), 3 * ONE / 8][rnd(s, 3, 5)], ppc: 1 + rnd(s, 4, 9),
      pts: range(0, n).foldl([], (l, i) => l.append(mkItem(d, s, 100 + 50 * i))), nv: range(0, n).foldl([], (l, i) => l.append(vec(d, s, 400 + 3 * i, ONE))) } }
  pure def mkCut(d: int, s: int): Cut = {
    val h = [ONE / 4, ONE / 2, ONE, 3 * ONE / 8, ONE / 10, ONE / 3][rnd(s, 1, 6)]
    val cells = if (d == 2) 6 else 3
    val mode = rnd(s, 2, 3)
    val ppc = if (d == 2) [1, 2, 4, 4, 9, 16, 3][rnd(s, 3, 7)] else [1, 8, 8, 2, 27][rnd(s, 3, 5)]
    // bounds on nodes, beside them, anywhere; some of them negative
    val lo = range(0, 3).foldl([], (l, i) => l.append(if (i >= d) 0 else srnd(s, 20 + i, 8) * h + [0, 0, h / 3, h / 2, h / 64][rnd(s, 23 + i, 5)]))
    val hi = range(0, 3).foldl([], (l, i) => l.append(if (i >= d) 0 else lo[i] + (1 + rnd(s, 30 + i, cells)) * h + [0, 0, 0, h / 3, 63 * h / 64][rnd(s, 33 + i, 5)]))
    val mid = [(lo[0] + hi[0]) / 2, (lo[1] + hi[1]) / 2, (lo[2] + hi[2]) / 2]
    val u = (hi[0] - lo[0]) * 3 / 4
    // sometimes a ball or a box around everything
    val all_ = rnd(s, 4, 4) == 0
    val w = 2 * ((hi[0] - lo[0]) + (hi[1] - lo[1]) + (hi[2] - lo[2]))
    val o1 = if (all_) { ...newSdf(d, u, rnd(s, 5, 2^40), if (rnd(s, 6, 2) == 0) BALL else BOX, false), shapes: [if (rnd(s, 6, 2) == 0) shape(BALL, [w]) else shape(BOX, [2 * w, 2 * w, if (d == 3) 2 * w else 0])] }
      else newSdf(d, u, rnd(s, 5, 2^40), if (d == 2) K2[rnd(s, 7, 8)] else K3[rnd(s, 7, 8)], rnd(s, 8, 6) == 0)
    val via = rnd(s, 9, 4)
    val off = if (rnd(s, 40, 2) == 0) ZV else [srnd(s, 41, 8) * u / 32, srnd(s, 42, 8) * u / 32, if (d == 3) srnd(s, 43, 8) * u / 32 else 0]
    val dom = not(o1.comp) and o1.shapes[0].k == DOMAIN
    val com = if (via == 3) mid else vadd(mid, off)
    val rot = if (via >= 2) (if (d == 2) [0] else [ONE, 0, 0, 0]) else o1.rot
    { mode: mode, via: via, lo: lo, hi: hi, h: h, ppc: ppc, num: 40 + rnd(s, 50, 60), key: rnd(s, 51, 1000000), o: turned({ ...o1, com: com, rot: rot }) } }

  action init = {
    nondet d = oneOf(DIMS)
    nondet s = oneOf(0.to(2^48))
    all { dim' = d, bodies' = [mkBody(d, s)], cuts' = [], seed' = s }
  }
  action step = {
    nondet s = oneOf(0.to(2^48))
    nondet w = oneOf(0.to(2))
    all { dim' = dim, seed' = seed,
      bodies' = if (w == 0) bodies.append(mkBody(dim, s)) else bodies,
      cuts' = if (w == 0) cuts else cuts.append(mkCut(dim, s)) }
  }
  // ---- theorems --------------------------------------------------------------
  pure def pt(b: Body, i: int): Point = created(b.opt, dimOf(b), b.h, b.ppc, b.pts[i])
  pure def dimOf(b: Body): int = if (b.pts[0].x[2] == 0) 2 else 3
  // mass over volume is the density asked for, whatever else is given
  val consistent = bodies.indices().forall(k => bodies[k].pts.indices().forall(i => {
    val b = bodies[k]
    val p = created(b.opt, dim, b.h, b.ppc, b.pts[i])
    (b.opt.mass or near(div(p.m, p.vol), if (b.opt.dens) b.pts[i].dens else R(1000), R(1) / 2^10)) and (b.opt.vol0 or p.vol == p.vol0) and p.vol > 0 and p.m > 0 }))
  // the points of a cell are enough, lie inside it, and symmetrically
  val filled = cuts.indices().forall(k => {
    val c = cuts[k]
    val n = perDim(c.ppc, dim)
    val ps = places(c.mode == 1, n)
    n^dim >= c.ppc and (n - 1)^dim < c.ppc and ps.indices().forall(j => ps[j] > 0 and ps[j] < ONE and near(ps[j] + ps[n - 1 - j], ONE, 8) and (j == 0 or ps[j - 1 + (if (j == 0) 1 else 0)] < ps[j]) and
      (c.mode != 1 or near(legendre(n, 2 * ps[j] - ONE), 0, 256))) })
  val inv = consistent and filled
}
module gen_body_2 { import gen_body(DIMS=Set(2)).* }
module gen_body_3 { import gen_body(DIMS=Set(3)).* }
