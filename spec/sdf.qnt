// Rigid objects described by signed distances: distance, normal, wall
// velocity, friction and motion; and the frictional contact they impose on a
// grid node.  Negative inside an object (a domain is positive inside).
module sdf {
  import fx.* from "./fx"
  import tens.* from "./tens"

  pure val BOX: int = 0        // sizes (3)
  pure val BALL: int = 1       // radius
  pure val PLANE: int = 2      // normal (3)
  pure val CAPSULE: int = 3    // radius, distance between the centres of its caps (along y)
  pure val RING: int = 4       // height, outer, inner radius; plane annulus
  pure val WALLS: int = 5      // height, outer, inner; plane section of a pipe along y
  pure val PIPE: int = 6       // height, outer, inner; along y
  pure val CYL: int = 7        // radius, height; along y
  pure val TORUS: int = 8      // major, minor; around y
  pure val STAR: int = 9       // number of arms, outer, inner (plane, a tip on +y)
  pure val DOMAIN: int = 10    // min (3), max (3), friction of the walls (dim minima, dim maxima); in world coordinates

  type Shape = { k: int, p: List[int] }
  // rot: [angle] in the plane, unit quaternion [w x y z] in space; ang: [w, 0, 0] in the plane; rm: matrix of rot
  type Sdf = { dim: int, comp: bool, shapes: List[Shape], fr: List[int], com: List[int], rot: List[int], vel: List[int], ang: List[int], rm: List[int] }
  pure def rotM(dim: int, rot: List[int]): List[int] = if (dim == 2) rotZ(rot[0]) else rotQ(rot)
  // derived data: vertices of stars, rotation matrix
  pure def shape(k: int, p: List[int]): Shape = { k: k, p: if (k != 9) p else
    range(0, 2 * (p[0] / ONE) + 1).foldl([p[0], p[1], p[2]], (l, j) => { val v = starV(p[0] / ONE, p[1], p[2], j) l.append(v._1).append(v._2) }) }
  pure def turned(o: Sdf): Sdf = o.with("rm", rotM(o.dim, o.rot))

  pure def hyp(a: int, b: int): int = sqrt(sq(a) + sq(b))
  // distance to a rectangle given the signed distances to its two slabs
  pure def rect(a: int, b: int): int = hyp(maxi(a, 0), maxi(b, 0)) + mini(maxi(a, b), 0)
  pure def seg(p: (int, int), a: (int, int), b: (int, int)): int = {
    val ex = b._1 - a._1
    val ey = b._2 - a._2
    val t = clampi(div(mul(p._1 - a._1, ex) + mul(p._2 - a._2, ey), sq(ex) + sq(ey)), 0, ONE)
    hyp(p._1 - a._1 - mul(t, ex), p._2 - a._2 - mul(t, ey)) }
  // polygon of a star: 2n vertices, tips on even ones
  pure def starV(n: int, ro: int, ri: int, j: int): (int, int) = {
    val w = cosSin(884279719003555 * j / n)     // pi j / n
    val r = if (j % 2 == 0) ro else ri
    (mul(r, w.s), mul(r, w.c)) }
  pure def starDist(p: List[int], x: int, y: int): int = {
    val n = p[0] / ONE
    val vs = range(0, 2 * n + 1).foldl([], (l, j) => l.append((p[3 + 2 * j], p[4 + 2 * j])))
    val d = range(0, 2 * n).foldl(R(1000000), (a, j) => mini(a, seg((x, y), vs[j], vs[j + 1])))
    // even-odd rule along +x
    val c = range(0, 2 * n).foldl(false, (b, j) => {
      val u = vs[j]
      val v = vs[j + 1]
      if ((u._2 > y) != (v._2 > y) and x < u._1 + div(mul(v._1 - u._1, y - u._2), v._2 - u._2)) not(b) else b })
    if (c) -d else d }

  // distance of a local point
  pure def dist1(dim: int, s: Shape, q: List[int]): int = {
    val p = s.p
    if (s.k == BOX) {
      val a = abs(q[0]) - p[0] / 2
      val b = abs(q[1]) - p[1] / 2
      val c = if (dim == 3) abs(q[2]) - p[2] / 2 else -R(1000000)
      sqrt(sq(maxi(a, 0)) + sq(maxi(b, 0)) + sq(maxi(c, 0))) + mini(maxi(a, maxi(b, c)), 0) }
    else if (s.k == BALL) norm(q) - p[0]
    else if (s.k == PLANE) div(dot(q, p), norm(p))
    else if (s.k == CAPSULE) norm([q[0], q[1] - clampi(q[1], -p[1] / 2, p[1] / 2), q[2]]) - p[0]
    else if (s.k == RING) abs(hyp(q[0], q[1]) - (p[1] + p[2]) / 2) - (p[1] - p[2]) / 2
    else if (s.k == WALLS) rect(abs(abs(q[0]) - (p[1] + p[2]) / 2) - (p[1] - p[2]) / 2, abs(q[1]) - p[0] / 2)
    else if (s.k == PIPE) rect(abs(hyp(q[0], q[2]) - (p[1] + p[2]) / 2) - (p[1] - p[2]) / 2, abs(q[1]) - p[0] / 2)
    else if (s.k == CYL) rect(hyp(q[0], q[2]) - p[0], abs(q[1]) - p[1] / 2)
    else if (s.k == TORUS) hyp(hyp(q[0], q[2]) - p[0], q[1]) - p[1]
    else if (s.k == STAR) starDist(p, q[0], q[1])
    else walls(dim, s, q).foldl(R(1000000), (m, x) => mini(m, x))
  }
  // distances to the walls of a domain: minima, then maxima
  pure def walls(dim: int, s: Shape, q: List[int]): List[int] =
    range(0, 2 * dim).foldl([], (l, i) => l.append(if (i < dim) q[i] - s.p[i] else s.p[3 + i - dim] - q[i - dim]))
  pure def argmin(l: List[int]): int = l.indices().fold(0, (a, i) => if (l[i] < l[a]) i else a)

  // world -> local and back
  pure def toLocal(o: Sdf, x: List[int]): List[int] =
    if (not(o.comp) and o.shapes[0].k == DOMAIN) x
    else mv(transp(o.rm), vsub(x, o.com))
  pure def toWorld(o: Sdf, q: List[int]): List[int] =
    if (not(o.comp) and o.shapes[0].k == DOMAIN) q
    else vadd(o.com, mv(o.rm, q))

  pure def distsLocal(o: Sdf, q: List[int]): List[int] = o.shapes.foldl([], (l, s) => l.append(dist1(o.dim, s, q)))
  pure def minL(l: List[int]): int = l.foldl(R(1000000000), (m, x) => mini(m, x))
  pure def dist(o: Sdf, x: List[int]): int = minL(distsLocal(o, toLocal(o, x)))
  // friction of the surface next to x
  pure def friction(o: Sdf, x: List[int]): int =
    if (o.comp) o.fr[argmin(distsLocal(o, toLocal(o, x)))]
    else if (o.shapes[0].k == DOMAIN) o.shapes[0].p[6 + argmin(walls(o.dim, o.shapes[0], x))]
    else ONE
  pure def axis(i: int, e: int): List[int] = [if (i == 0) e else 0, if (i == 1) e else 0, if (i == 2) e else 0]
  // gradient of the distance by symmetric differences of width e; not a unit vector where the distance has a kink
  pure def grad(o: Sdf, x: List[int], e: int): List[int] = {
    val g0 = dist(o, vadd(x, axis(0, e))) - dist(o, vadd(x, axis(0, -e)))
    val g1 = dist(o, vadd(x, axis(1, e))) - dist(o, vadd(x, axis(1, -e)))
    val g2 = if (o.dim == 3) dist(o, vadd(x, axis(2, e))) - dist(o, vadd(x, axis(2, -e))) else 0
    [div(g0, 2 * e), div(g1, 2 * e), div(g2, 2 * e)] }
  pure def smooth(g: List[int]): bool = near(norm(g), ONE, ONE / 2^14)
  // velocity of the rigid motion
  pure def wallVel(o: Sdf, x: List[int]): List[int] = {
    val r = vsub(x, o.com)
    vadd(o.vel, if (o.dim == 2) [-mul(o.ang[0], r[1]), mul(o.ang[0], r[0]), 0] else vcross(o.ang, r)) }

  // ---- motion ------------------------------------------------------------
  pure def qmul(a: List[int], b: List[int]): List[int] = [
    mul(a[0], b[0]) - mul(a[1], b[1]) - mul(a[2], b[2]) - mul(a[3], b[3]),
    mul(a[0], b[1]) + mul(a[1], b[0]) + mul(a[2], b[3]) - mul(a[3], b[2]),
    mul(a[0], b[2]) - mul(a[1], b[3]) + mul(a[2], b[0]) + mul(a[3], b[1]),
    mul(a[0], b[3]) + mul(a[1], b[2]) - mul(a[2], b[1]) + mul(a[3], b[0])]
  pure def qnorm(q: List[int]): int = sqrt(sq(q[0]) + sq(q[1]) + sq(q[2]) + sq(q[3]))
  // the exact rotation by w dt
  pure def qturn(w: List[int], dt: int): List[int] = {
    val n = norm(w)
    val cs = cosSin(mul(n, dt) / 2)
    if (n == 0) [ONE, 0, 0, 0] else [cs.c, mul(cs.s, div(w[0], n)), mul(cs.s, div(w[1], n)), mul(cs.s, div(w[2], n))] }
  pure def move(o: Sdf, dt: int): Sdf =
    if (not(o.comp) and o.shapes[0].k == DOMAIN) o
    else turned({ ...o, com: vadd(o.com, vscale(dt, o.vel)), rot: if (o.dim == 2) [o.rot[0] + mul(dt, o.ang[0])] else qmul(qturn(o.ang, dt), o.rot) })

  // ---- contact -----------------------------------------------------------
  // Coulomb friction against a wall of normal n moving with u
  pure def contact(v: List[int], n: List[int], u: List[int], mu: int): List[int] = {
    val vn = dot(vsub(v, u), n)
    val push = maxi(0, -vn)
    val w = vadd(vsub(v, u), vscale(push, n))          // relative, without approach
    val vt = vsub(w, vscale(dot(w, n), n))
    val t = norm(vt)
    val slow = mini(t, mul(mu, push))
    vadd(u, vsub(w, if (t == 0) ZV else vscale(div(slow, t), vt))) }
  type Col = { o: int, fr: int, gm: int }
  // velocity of a node at x after the collider; cells: a node feels an object up to one cell away
  pure def collide(o: Sdf, fr: int, h: int, x: List[int], v: List[int]): List[int] = {
    if (dist(o, x) > h) v else {
      val g = grad(o, x, h / 2^14)
      val n = norm(g)
      contact(v, if (n == 0) ZV else [div(g[0], n), div(g[1], n), div(g[2], n)], wallVel(o, x), mul(fr, friction(o, x))) } }
  // all colliders acting on grid gi, in their order, at a node of velocity v
  pure def collideAll(os: List[Sdf], cols: List[Col], gi: int, h: int, x: List[int], v: List[int]): List[int] =
    cols.foldl(v, (w, c) => if ((c.gm / 2^gi) % 2 == 0) w else collide(os[c.o], c.fr, h, x, w))
  // the judgement of `collide` is robust: no kink, no tie, not at the edge of its reach
  pure def clear(o: Sdf, h: int, x: List[int], tol: int): bool = {
    val d = dist(o, x)
    if (d > h + tol) true
    else if (d > h - tol) false
    else smooth(grad(o, x, h / 2^14)) and distinct(o, x, tol) }
  // the nearest surface is nearest by a margin
  pure def distinct(o: Sdf, x: List[int], tol: int): bool = {
    val l = if (o.comp) distsLocal(o, toLocal(o, x)) else if (o.shapes[0].k == DOMAIN) walls(o.dim, o.shapes[0], x) else [0]
    val a = argmin(l)
    l.indices().forall(i => i == a or l[i] > l[a] + tol) }

  run sdfTest = all {
    assert(dist1(2, { k: BOX, p: [R(2), R(4), 0] }, [R(4), R(6), 0]) == R(5)),
    assert(dist1(2, { k: BOX, p: [R(2), R(4), 0] }, [0, 0, 0]) == -R(1)),
    assert(near(dist1(2, shape(STAR, [R(5), R(2), R(1)]), [0, R(2), 0]), 0, 16)),
    assert(near(dist1(2, shape(STAR, [R(4), R(2), R(1)]), [R(3), 0, 0]), R(1), 64)),
    assert(dist1(2, shape(STAR, [R(5), R(2), R(1)]), [ONE / 8, ONE / 8, 0]) < 0),
    assert(near(dist1(3, { k: TORUS, p: [R(3), R(1)] }, [0, R(4), 0]), R(4), 16)),
    assert(near(dist1(2, { k: RING, p: [R(1), R(3), R(1)] }, [0, R(2), 0]), -R(1), 16)),
    assert(contact([R(1), -R(1), 0], [0, ONE, 0], [0, 0, 0], ONE / 2) == [ONE / 2, 0, 0]),
    assert(contact([R(1), R(1), 0], [0, ONE, 0], [0, 0, 0], ONE / 2) == [R(1), R(1), 0]),
  }
}
