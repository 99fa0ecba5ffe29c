// Random rigid objects.
module sdfgen {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import sdf.* from "./sdf"
  import scen.rnd from "./scen"
  import scen.srnd from "./scen"
  import scen.odd from "./scen"

  // a length between lo and hi eighths of u
  pure def len_(u: int, s: int, i: int, lo: int, hi: int): int = lo * u / 8 + (hi - lo) * u / 8 * rnd(s, i, 1025) / 1024
  pure def unit(s: int, i: int, dim: int): List[int] = {
    val a = [odd(s, i, 9), odd(s, i + 1, 9), if (dim == 3) odd(s, i + 2, 9) else 0]
    val n = sqrt((a[0] * a[0] + a[1] * a[1] + a[2] * a[2]) * ONE)
    [div(a[0] * ONE, n), div(a[1] * ONE, n), div(a[2] * ONE, n)] }
  pure val K2: List[int] = [BOX, BALL, PLANE, CAPSULE, RING, WALLS, STAR, DOMAIN]
  pure val K3: List[int] = [BOX, BALL, PLANE, CAPSULE, PIPE, CYL, TORUS, DOMAIN]
  pure def newShape(dim: int, kind: int, u: int, s: int, b: int): Shape = shape(kind,
    if (kind == BOX) [len_(u, s, b, 2, 16), len_(u, s, b + 1, 2, 16), if (dim == 3) len_(u, s, b + 2, 2, 16) else 0]
    else if (kind == BALL) [len_(u, s, b, 2, 12)]
    else if (kind == PLANE) { val n = unit(s, b, dim) val m = len_(ONE, s, b + 3, 4, 16) [mul(m, n[0]), mul(m, n[1]), mul(m, n[2])] }
    else if (kind == CAPSULE) [len_(u, s, b, 2, 8), len_(u, s, b + 1, 0, 12)]
    else if (kind == RING or kind == WALLS or kind == PIPE) { val ri = len_(u, s, b, 2, 8) [len_(u, s, b + 1, 2, 16), ri + len_(u, s, b + 2, 2, 8), ri] }
    else if (kind == CYL) [len_(u, s, b, 2, 10), len_(u, s, b + 1, 2, 16)]
    else if (kind == TORUS) { val mi = len_(u, s, b, 1, 4) [mi + len_(u, s, b + 1, 1, 8), mi] }
    else if (kind == STAR) { val ri = len_(u, s, b, 2, 6) [R(3 + rnd(s, b + 1, 5)), ri + len_(u, s, b + 2, 3, 8), ri] }
    else { val lo = [srnd(s, b, 9) * u / 8, srnd(s, b + 1, 9) * u / 8, if (dim == 3) srnd(s, b + 2, 9) * u / 8 else 0]
      [lo[0], lo[1], lo[2], lo[0] + len_(u, s, b + 3, 4, 24), lo[1] + len_(u, s, b + 4, 4, 24), lo[2] + len_(u, s, b + 5, 4, 24)].concat(
        range(0, 2 * dim).foldl([], (l, i) => l.append(rnd(s, b + 6 + i, 9) * ONE / 8))) })
  pure def newQuat(s: int, i: int): List[int] = {
    val q = [odd(s, i, 4), odd(s, i + 1, 4), odd(s, i + 2, 4), odd(s, i + 3, 4)]
    val n = sqrt((q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]) * ONE)
    [div(q[0] * ONE, n), div(q[1] * ONE, n), div(q[2] * ONE, n), div(q[3] * ONE, n)] }
  pure def newSdf(dim: int, u: int, s: int, kind: int, comp: bool): Sdf = {
    val n = if (comp) 2 + rnd(s, 1, 2) else 1
    val shapes = range(0, n).foldl([], (l, i) => l.append(
      if (comp) newShape(dim, { val j = rnd(s, 10 + i, 7) if (dim == 2) K2[j] else K3[j] }, u, s, 100 + 20 * i) else newShape(dim, kind, u, s, 100)))
    turned({ dim: dim, comp: comp, shapes: shapes, rm: IM, fr: range(0, n).foldl([], (l, i) => l.append(rnd(s, 20 + i, 9) * ONE / 8)),
      com: [srnd(s, 30, 30) * ONE / 16, srnd(s, 31, 30) * ONE / 16, if (dim == 3) srnd(s, 32, 30) * ONE / 16 else 0],
      rot: if (dim == 2) [if (rnd(s, 33, 4) == 0) 0 else srnd(s, 34, 400) * ONE / 64] else if (rnd(s, 33, 4) == 0) [ONE, 0, 0, 0] else newQuat(s, 34),
      vel: [srnd(s, 40, 20) * ONE / 16, srnd(s, 41, 20) * ONE / 16, if (dim == 3) srnd(s, 42, 20) * ONE / 16 else 0],
      ang: if (rnd(s, 43, 5) == 0) ZV else if (dim == 2) [srnd(s, 44, 40) * ONE / 16, 0, 0] else [srnd(s, 44, 20) * ONE / 16, srnd(s, 45, 20) * ONE / 16, srnd(s, 46, 20) * ONE / 16] }) }
}
