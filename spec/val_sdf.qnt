// Trace validation of rigid objects: queries of distance, normal, wall velocity
// and friction (event type 0), and motions (1).
module val_sdf {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import sdf.* from "./sdf"
  import verdict.* from "./verdict"
  import dec.* from "./verdict"
  import lg.* from "./lg"

  // header: type, dim, composite, shapes, points, of which on a surface, special
  // then: kinds; per shape its parameters; friction, centre, rotation, velocity, angular velocity
  pure def object(f: List[List[int]]): Sdf = {
    val n = f[0][3]
    turned({ dim: f[0][1], comp: f[0][2] == 1, rm: IM,
      shapes: range(0, n).foldl([], (l, i) => l.append(shape(f[1][i], f[2 + i]))),
      fr: f[2 + n], com: f[3 + n], rot: f[4 + n], vel: f[5 + n], ang: f[6 + n] }) }
  pure val E: int = ONE / 2^14

  pure def judgeQuery(v0: V, f: List[List[int]], o: Sdf): V = {
    val h = f[0]
    val b = 7 + h[3]
    val v1 = range(0, h[4]).foldl(v0, (v, i) => {
      val x = sub(f[b], i, 3)
      val nrm = sub(f[b + 2], i, 3)
      val w = dist(o, x)
      val tol = (ONE + abs(w)) / 2^17
      val u1 = near_(v, "P15.distance", i, o.shapes[0].k, f[b + 1][i], w, tol)
      val g = grad(o, x, E)
      val n = norm(g)
      // a kink within the width of the difference, or a star's own outline, has no single normal
      val has = smooth(g) and (abs(w) > ONE / 2^14 or o.comp or o.shapes[0].k != STAR)
      val u2 = if (not(has)) u1 else list_(u1, "P15.normal", i, nrm, [div(g[0], n), div(g[1], n), div(g[2], n)], ONE / 2^11)
      val u3 = if (not(has)) u2 else near_(u2, "P15.unit", i, 0, norm(nrm), ONE, ONE / 2^16)
      val u4 = if (not(distinct(o, x, ONE / 2^14))) u3 else near_(u3, "P15.friction", i, 0, f[b + 4][i], friction(o, x), ONE / 2^18)
      list_(u4, "P14.wallvelocity", i, sub(f[b + 3], i, 3), wallVel(o, x), mul(vmaxabs(wallVel(o, x)) + vmaxabs(o.vel), ONE / 2^16) + ONE / 2^16)
    })
    val m = h[4] - h[5] - h[6]
    // points constructed on the surface of a part
    val v2 = range(m, m + h[5]).foldl(v1, (v, i) =>
      if (o.comp) le_(v, "P15.surface", i, 0, f[b + 1][i], 0, ONE / 2^15) else near_(v, "P15.surface", i, 0, f[b + 1][i], 0, ONE / 2^15))
    val v3_ = range(1, m).foldl(v2, (v, i) =>
      le_(v, "P15.lipschitz", i, 0, abs(f[b + 1][i] - f[b + 1][i - 1]), norm(vsub(sub(f[b], i, 3), sub(f[b], i - 1, 3))), ONE / 2^15))
    // centre, axis, corners: no direction there, but a number
    range(m + h[5], h[4]).foldl(v3_, (v, i) => finite_(v, "P15.finite", i, sub(f[b + 2], i, 3).append(f[b + 1][i])))
  }

  pure def judgeMotion(v: V, f: List[List[int]], o: Sdf): V = {
    val b = 7 + f[0][3]
    val dt = f[b][0]
    val m = move(o, dt)
    val still = not(o.comp) and o.shapes[0].k == DOMAIN
    val com = f[b + 1]
    val rot = f[b + 2]
    val a = mul(vmaxabs(o.ang) * 2, dt)
    val tr_ = ONE / 2^18 + mul(mul(a, a), a) / 10 + (if (o.dim == 2) abs(o.rot[0]) / 2^20 else 0)
    val v1 = list_(v, if (still) "P14.domain" else "P14.centre", 0, com, m.com, (ONE + vmaxabs(o.com)) / 2^19)
    val v2 = list_(v1, if (still) "P14.domain" else "P14.orientation", 0, rot, m.rot, tr_)
    val v3_ = if (o.dim == 2) v2 else near_(v2, "P14.unit", 0, 0, qnorm(rot), ONE, ONE / 2^19)
    val v4 = list_(v3_, "P14.velocities", 0, f[b + 3], o.vel, 0)
    list_(v4, "P14.velocities", 1, f[b + 4], o.ang, 0)
  }

  pure def judge(ev: int): V = {
    val f = fieldsOf(EV[ev])
    val o = object(f)
    if (f[0][0] == 0) judgeQuery(newV(ev), f, o) else judgeMotion(newV(ev), f, o)
  }
  var i: int
  var out: V
  action init = all { i' = 0, out' = newV(0) }
  action step = all { i < EV.length(), i' = i + 1, out' = merge(out, judge(i)) }
}
