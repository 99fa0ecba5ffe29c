// Bodies: what points are created with, and the lattices bodies are cut from.
module body {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import sdf.* from "./sdf"
  import hlp.* from "./hlp"

  // which arguments are given
  type Opt = { vel: bool, force: bool, mass: bool, vol: bool, vol0: bool, L: bool, stress: bool, F: bool, store: bool, cell: bool, ppc: bool, dens: bool }
  type Item = { x: List[int], v: List[int], f: List[int], m: int, vol: int, vol0: int, L: List[int], s: List[int], F: List[int], dens: int }
  type Point = { x: List[int], v: List[int], f: List[int], m: int, vol: int, vol0: int, L: List[int], s: List[int], F: List[int] }

  pure def powd(h: int, dim: int): int = if (dim == 2) mul(h, h) else mul(h, mul(h, h))
  // the documented defaults
  pure def created(o: Opt, dim: int, h: int, ppc: int, i: Item): Point = {
    val v = if (o.vol) i.vol else powd(if (o.cell) h else ONE, dim) / (if (o.ppc) ppc else 4)
    { x: i.x, v: if (o.vel) i.v else ZV, f: if (o.force) i.f else ZV, vol: v, vol0: if (o.vol0) i.vol0 else v,
      m: if (o.mass) i.m else mul(v, if (o.dens) i.dens else R(1000)),
      L: if (o.L) i.L else ZM, s: if (o.stress) i.s else ZM, F: if (o.F) i.F else IM } }

  // smallest n with n^dim >= ppc
  pure def perDim(ppc: int, dim: int): int = range(1, 40).foldl(0, (a, n) => if (a == 0 and n^dim >= ppc) n else a)
  // where the points of a cell lie along an axis: at equal distances, or at the roots of the Legendre polynomial
  pure def roots(n: int): List[int] =
    if (n == 1) [0]
    else if (n == 2) { val a = sqrt(Q(1, 3)) [-a, a] }
    else if (n == 3) { val a = sqrt(Q(3, 5)) [-a, 0, a] }
    else { val w = sqrt(Q(6, 5)) val a = sqrt(Q(3, 7) - 2 * w / 7) val b = sqrt(Q(3, 7) + 2 * w / 7) [-b, -a, a, b] }
  pure def legendre(n: int, x: int): int = range(1, n).foldl((ONE, x), (a, k) => (a._2, ((2 * k + 1) * mul(x, a._2) - k * a._1) / (k + 1)))._2
  pure def places(gl: bool, n: int): List[int] =
    if (gl) roots(n).foldl([], (l, x) => l.append((x + ONE) / 2)) else range(0, n).foldl([], (l, j) => l.append((2 * j + 1) * ONE / (2 * n)))
  pure def cdiv(a: int, b: int): int = -fdiv(-a, b)
}
