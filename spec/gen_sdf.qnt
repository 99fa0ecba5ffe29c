// Generator: rigid objects, query points and motions.
module gen_sdf {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import sdf.* from "./sdf"
  import scen.rnd from "./scen"
  import scen.srnd from "./scen"
  import scen.odd from "./scen"
  import sdfgen.* from "./sdfgen"
  const DIMS: Set[int]
  const NQ: int      // query points

  var o: Sdf
  var first: Sdf
  var seed: int
  var dt: int
  var pts: List[List[int]]     // anywhere
  var srf: List[List[int]]     // on the surface
  var spc: List[List[int]]     // centre, axis, corners
  var k: int

  pure def frac(s: int, i: int): int = srnd(s, i, 31) * ONE / 64     // (-1/2, 1/2)
  pure def sgn1(s: int, i: int): int = 1 - 2 * rnd(s, i, 2)
  // a local point of the surface of a shape
  pure def onSurface(dim: int, sh: Shape, s: int, b: int): List[int] = {
    val p = sh.p
    val f = rnd(s, b, dim)
    val e = sgn1(s, b + 1)
    val g1 = frac(s, b + 2)
    val g2 = frac(s, b + 3)
    val g3 = frac(s, b + 4)
    val u = unit(s, b + 5, dim)
    if (sh.k == BOX) {
      val q = [mul(g1, p[0]), mul(g2, p[1]), if (dim == 3) mul(g3, p[2]) else 0]
      q.replaceAt(f, e * p[f] / 2) }
    else if (sh.k == BALL) vscale(p[0], u)
    else if (sh.k == PLANE) { val m = norm(p) val n = [div(p[0], m), div(p[1], m), div(p[2], m)] val w = vscale(R(3), u) vsub(w, vscale(dot(w, n), n)) }
    else if (sh.k == CAPSULE) (if (rnd(s, b + 8, 2) == 0) vadd(vscale(p[0], u), [0, if (u[1] < 0) -p[1] / 2 else p[1] / 2, 0])
      else { val h = hyp(u[0], u[2]) [div(mul(p[0], u[0]), h), mul(g1, p[1]), div(mul(p[0], u[2]), h)] })
    else if (sh.k == RING) vscale(if (e > 0) p[1] else p[2], u)
    else if (sh.k == WALLS) (if (rnd(s, b + 8, 2) == 0) [sgn1(s, b + 9) * (if (e > 0) p[1] else p[2]), mul(g1, p[0]), 0]
      else [sgn1(s, b + 9) * (p[2] + mul(g1 + ONE / 2, p[1] - p[2])), e * p[0] / 2, 0])
    else if (sh.k == PIPE or sh.k == CYL) {
      val h = hyp(u[0], u[2])
      val ro = if (sh.k == CYL) p[0] else p[1]
      val ri = if (sh.k == CYL) 0 else p[2]
      val hh = if (sh.k == CYL) p[1] else p[0]
      val side = rnd(s, b + 8, 2) == 0
      val r = if (side) (if (e > 0 or sh.k == CYL) ro else ri) else ri + mul(g1 + ONE / 2, ro - ri)
      [div(mul(r, u[0]), h), if (side) mul(g2, hh) else e * hh / 2, div(mul(r, u[2]), h)] }
    else if (sh.k == TORUS) {
      val h = hyp(u[0], u[2])
      val w = unit(s, b + 9, 2)
      val r = p[0] + mul(p[1], w[0])
      [div(mul(r, u[0]), h), mul(p[1], w[1]), div(mul(r, u[2]), h)] }
    else if (sh.k == STAR) {
      val n = p[0] / ONE
      val j = rnd(s, b + 8, 2 * n)
      val a = starV(n, p[1], p[2], j)
      val c = starV(n, p[1], p[2], j + 1)
      val t = g1 + ONE / 2
      [a._1 + mul(t, c._1 - a._1), a._2 + mul(t, c._2 - a._2), 0] }
    else {
      val q = [p[0] + mul(g1 + ONE / 2, p[3] - p[0]), p[1] + mul(g2 + ONE / 2, p[4] - p[1]), if (dim == 3) p[2] + mul(g3 + ONE / 2, p[5] - p[2]) else 0]
      q.replaceAt(f, if (e > 0) p[3 + f] else p[f]) }
  }

  pure def special(dim: int, sh: Shape): List[int] =
    if (sh.k == TORUS) [sh.p[0], 0, 0]
    else if (sh.k == STAR) [0, sh.p[1], 0]
    else if (sh.k == BOX) [sh.p[0] / 2, sh.p[1] / 2, if (dim == 3) sh.p[2] / 2 else 0]
    else if (sh.k == DOMAIN) [sh.p[0], sh.p[1], if (dim == 3) sh.p[2] else 0]
    else [0, ONE / 8, 0]

  action init = {
    nondet dim = oneOf(DIMS)
    nondet kind = oneOf(0.to(8))     // the last: composite
    nondet s = oneOf(0.to(2^48))
    val comp = kind == 8
    val kk = if (comp) BOX else if (dim == 2) K2[kind] else K3[kind]
    val w = newSdf(dim, ONE, s, kk, comp)
    all { spc' = [toWorld(w, [0, 0, 0]), toWorld(w, special(dim, w.shapes[0]))], o' = w, first' = w, seed' = s, dt' = [ONE / 100, ONE / 16, ONE / 1000, ONE / 2][rnd(s, 3, 4)], k' = 0,
      pts' = range(0, NQ).foldl([], (l, i) => l.append(toWorld(w, [odd(s, 500 + 3 * i, 60) * ONE / 64 + ONE / 1000, odd(s, 501 + 3 * i, 60) * ONE / 64 + ONE / 777, if (dim == 3) odd(s, 502 + 3 * i, 60) * ONE / 64 + ONE / 555 else 0]))),
      srf' = range(0, NQ / 2).foldl([], (l, i) => l.append(toWorld(w, onSurface(dim, w.shapes[rnd(s, 700 + i, w.shapes.length())], s, 800 + 20 * i)))) }
  }
  // the object moves and carries the points along
  action step = { val m = move(o, dt) all { spc' = [toWorld(m, [0, 0, 0]), toWorld(m, special(m.dim, m.shapes[0]))], o' = m, first' = first, seed' = seed, dt' = dt, k' = k + 1,
    pts' = pts.foldl([], (l, x) => l.append(toWorld(m, toLocal(o, x)))), srf' = srf.foldl([], (l, x) => l.append(toWorld(m, toLocal(o, x)))) } }

  pure def T: int = ONE / 2^24
  // distances change no faster than positions
  val lipschitz = pts.indices().forall(i => pts.indices().forall(j => abs(dist(o, pts[i]) - dist(o, pts[j])) <= norm(vsub(pts[i], pts[j])) + T))
  // parametrised surface points have no distance (inside the others in a union)
  val surface = srf.indices().forall(i => { val d = dist(o, srf[i]) d <= T and (o.comp or d >= -T) })
  // the gradient leads to the nearest surface point
  val closest = o.comp or pts.indices().forall(i => { val d = dist(o, pts[i]) val g = grad(o, pts[i], ONE / 2^14)
    not(smooth(g)) or (o.shapes[0].k == DOMAIN and d < 0) or abs(dist(o, vsub(pts[i], vscale(d, g)))) <= ONE / 2^10 })
  // a motion keeps distances and the unit quaternion
  val rigid = k == 0 or (pts.indices().forall(i => near(dist(o, pts[i]), dist(first, toWorld(first, toLocal(o, pts[i]))), T)) and (o.dim == 2 or near(qnorm(o.rot), ONE, T)))
  // the wall velocity is the rate of the co-moving point
  val rate = k == 0 or (o.dim == 3 and false) or { val a = ONE / 2^12 val m = move(o, a) pts.indices().forall(i =>
    (not(o.comp) and o.shapes[0].k == DOMAIN) or vclose(vscale(R(4096), vsub(toWorld(m, toLocal(o, pts[i])), pts[i])), wallVel(o, pts[i]), ONE / 32)) }
  // contact: no approach afterwards, never a pull, friction bounded by the push and never reversing, separation free
  pure def lawful1(v: List[int], n: List[int], u: List[int], mu: int): bool = {
    val r = contact(v, n, u, mu)
    val push = dot(vsub(r, v), n)
    val a = vsub(vsub(v, u), vscale(dot(vsub(v, u), n), n))
    val b = vsub(vsub(r, u), vscale(dot(vsub(r, u), n), n))
    dot(vsub(r, u), n) >= -T and push >= -T and norm(vsub(b, a)) <= mul(mu, push) + 4 * T and dot(a, b) >= -4 * T
      and (dot(vsub(v, u), n) < 0 or vclose(r, v, T)) and (norm(a) <= mul(mu, push) or near(norm(vsub(b, a)), mul(mu, push), 4 * T)) }
  val lawful = range(0, 6).foldl(true, (b, i) => b and lawful1([odd(seed, 900 + 9 * i, 9) * ONE / 8, odd(seed, 901 + 9 * i, 9) * ONE / 8, odd(seed, 902 + 9 * i, 9) * ONE / 8],
    unit(seed, 903 + 9 * i, 3), [odd(seed, 906 + 9 * i, 9) * ONE / 8, odd(seed, 907 + 9 * i, 9) * ONE / 8, 0], rnd(seed, 908 + 9 * i, 9) * ONE / 8))
  val inv = lawful and lipschitz and surface and closest and rigid and rate
}
module gen_sdf_2 { import gen_sdf(DIMS=Set(2), NQ=8).* }
module gen_sdf_3 { import gen_sdf(DIMS=Set(3), NQ=8).* }
