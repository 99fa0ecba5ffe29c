// Shape functions, grid topology and particle-node connectivity.
module kernel {
  import fx.* from "./fx"
  import tens.* from "./tens"

  pure val LINEAR: int = 1
  pure val QUADRATIC: int = 2
  pure val CUBIC: int = 3

  // one-dimensional cardinal B-splines; r = (x_p - x_i) / h
  pure def N1(k: int, r: int): int = {
    val a = abs(r)
    if (k == LINEAR) (if (a < ONE) ONE - a else 0)
    else if (k == QUADRATIC) (
      if (2 * a <= ONE) 3 * ONE / 4 - sq(a)
      else if (2 * a <= 3 * ONE) sq(3 * ONE / 2 - a) / 2
      else 0)
    else (
      if (a < ONE) (mul(sq(a), a) / 2 - sq(a) + 2 * ONE / 3)
      else if (a < 2 * ONE) (mul(sq(2 * ONE - a), 2 * ONE - a) / 6)
      else 0)
  }
  // derivative with respect to r
  pure def D1(k: int, r: int): int = {
    val a = abs(r)
    val s = sgn(r)
    if (k == LINEAR) (if (a < ONE) -s * ONE else 0)
    else if (k == QUADRATIC) (
      if (2 * a <= ONE) -2 * r
      else if (2 * a <= 3 * ONE) -s * (3 * ONE / 2 - a)
      else 0)
    else (
      if (a < ONE) s * (3 * sq(a) / 2 - 2 * a)
      else if (a < 2 * ONE) -s * sq(2 * ONE - a) / 2
      else 0)
  }
  // within ONE/2^b of a node
  pure def kinky(r: int, b: int): bool = { val w = r + ONE / 2^b w - R(floorToInt(w)) <= ONE / 2^(b - 1) }
  // number of nodes per direction in the stencil and its first offset
  pure def width(k: int): int = k + 1
  pure def firstNode(k: int, b: int): int =
    if (k == LINEAR) floorToInt(b)
    else if (k == QUADRATIC) floorToInt(b - HALF)
    else floorToInt(b) - 1

  // grid: dim (2|3), origin, h, n (nodes per direction)
  type Grid = { dim: int, origin: List[int], h: int, n: List[int] }
  type Intr = { node: int, valid: bool, w: int, g: List[int], r: List[int] }

  pure def numNodes(g: Grid): int = range(0, g.dim).foldl(1, (a, i) => a * g.n[i])
  pure def base(g: Grid, x: List[int], d: int): int = div(x[d] - g.origin[d], g.h)
  // row-major node number
  pure def nodeId(g: Grid, ix: List[int]): int = range(0, g.dim).foldl(0, (a, d) => a * g.n[d] + ix[d])
  pure def nodePos(g: Grid, id: int): List[int] =
    if (g.dim == 2) [g.origin[0] + (id / g.n[1]) * g.h, g.origin[1] + (id % g.n[1]) * g.h, 0]
    else [g.origin[0] + (id / (g.n[1] * g.n[2])) * g.h, g.origin[1] + ((id / g.n[2]) % g.n[1]) * g.h, g.origin[2] + (id % g.n[2]) * g.h]

  // all interactions of a particle at x, in stencil order (row-major offsets)
  pure def interactions(k: int, g: Grid, x: List[int]): List[Intr] = {
    val b = range(0, 3).foldl([], (acc, d) => acc.append(if (d < g.dim) base(g, x, d) else 0))
    val f = range(0, 3).foldl([], (acc, d) => acc.append(if (d < g.dim) firstNode(k, b[d]) else 0))
    val w = width(k)
    val num = if (g.dim == 2) w * w else w * w * w
    // per-direction tables of (value, derivative)
    val tab = range(0, g.dim).foldl([], (acc, d) => acc.append(
      range(0, w).foldl([], (l, o) => { val r = b[d] - R(f[d] + o) l.append({ r: r, n: N1(k, r), dn: div(D1(k, r), g.h) }) })))
    range(0, num).foldl([], (acc, s) => {
      val off = if (g.dim == 2) [s / w, s % w, 0] else [s / (w * w), (s / w) % w, s % w]
      val ix = [f[0] + off[0], f[1] + off[1], f[2] + off[2]]
      val ok = forallIn(g.dim, d => ix[d] >= 0 and ix[d] < g.n[d])
      val t0 = tab[0][off[0]]
      val t1 = tab[1][off[1]]
      if (g.dim == 2)
        acc.append({ node: if (ok) nodeId(g, ix) else -1, valid: ok,
          w: if (ok) mul(t0.n, t1.n) else 0,
          g: if (ok) [mul(t0.dn, t1.n), mul(t0.n, t1.dn), 0] else ZV,
          r: [t0.r, t1.r, 0] })
      else {
        val t2 = tab[2][off[2]]
        acc.append({ node: if (ok) nodeId(g, ix) else -1, valid: ok,
          w: if (ok) mul(t0.n, mul(t1.n, t2.n)) else 0,
          g: if (ok) [mul(t0.dn, mul(t1.n, t2.n)), mul(t1.dn, mul(t0.n, t2.n)), mul(t2.dn, mul(t0.n, t1.n))] else ZV,
          r: [t0.r, t1.r, t2.r] })
      }
    })
  }
}
