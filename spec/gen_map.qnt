// Generator: grids requested by their extent, points on and around them, and the
// data transferred between both.
module gen_map {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import kernel.* from "./kernel"
  import scen.rnd from "./scen"
  import scen.srnd from "./scen"
  import scen.odd from "./scen"
  const DIMS: Set[int]
  const NP: int

  type Req = { dim: int, o: List[int], e: List[int], h: int, pad: int, arr: bool }
  var req: Req
  var grid: Grid
  var kern: int
  var rank: int            // 0 scalar, 1 vector, 2 tensor data
  var cut: int             // mass cutoff of a normalised transfer
  var pts: List[List[int]]
  var mass: List[int]
  var data: List[List[int]]
  var fld: List[int]       // coefficients of the affine grid field
  var k: int

  pure val HS: List[int] = [ONE / 4, ONE / 2, ONE / 10, ONE, 3 * ONE / 8, 3 * ONE / 2, ONE / 3]
  // where in a cell: on a node, at its centre, beside both, anywhere
  pure val FR: List[int] = [0, 32768, 16384, 64, 65472, 1, 65535, 32767, 32769]
  pure def place(s: int, i: int, n: int): int = {
    val c = rnd(s, i, n + 5) - 3                  // cells -3 .. n+1
    val j = rnd(s, i + 1, 20)
    c * 65536 + (if (j < FR.length()) FR[j] else rnd(s, i + 2, 65536)) }      // in cells / 65536
  pure def point(g: Grid, s: int, i: int): List[int] = {
    val z = range(0, 3).foldl([], (l, d) => l.append(if (d < g.dim) g.origin[d] + place(s, 1000 + 9 * i + 3 * d, g.n[d]) * g.h / 65536 else 0))
    z }
  // most points inside
  pure def inner(g: Grid, s: int, i: int): List[int] =
    range(0, 3).foldl([], (l, d) => l.append(if (d < g.dim)
      g.origin[d] + ((1 + rnd(s, 1000 + 9 * i + 3 * d, maxi(1, g.n[d] - 3))) * 65536 + (if (rnd(s, 1001 + 9 * i + 3 * d, 3) == 0) FR[rnd(s, 1002 + 9 * i + 3 * d, FR.length())] else rnd(s, 1002 + 9 * i + 3 * d, 65536))) * g.h / 65536 else 0))

  // smallest number of nodes that reaches the padded end
  pure def nodes(r: Req, d: int): int = { val ext = r.e[d] - r.o[d] + 2 * r.pad * r.h (ext + r.h - 1 - r.h / 2^20) / r.h + 1 }
  pure def layout(r: Req): Grid = { dim: r.dim, h: r.h,
    origin: range(0, 3).foldl([], (l, d) => l.append(if (d < r.dim) r.o[d] - r.pad * r.h else 0)),
    n: range(0, 3).foldl([], (l, d) => l.append(if (d < r.dim) nodes(r, d) else 1)) }

  action init = {
    nondet dim = oneOf(DIMS)
    nondet s = oneOf(0.to(2^48))
    nondet kk = oneOf(1.to(3))
    val h = HS[rnd(s, 1, HS.length())]
    val o = range(0, 3).foldl([], (l, d) => l.append(if (d < dim) odd(s, 10 + d, 40) * ONE / 16 else 0))
    val c = range(0, 3).foldl([], (l, d) => l.append((1 + rnd(s, 20 + d, if (dim == 2) 5 else 2)) * h + [0, 0, h / 3, 9 * h / 10, h / 64][rnd(s, 23 + d, 5)]))
    val r = { dim: dim, h: h, pad: rnd(s, 30, if (dim == 2) 4 else 3), arr: rnd(s, 31, 3) == 0, o: o,
      e: range(0, 3).foldl([], (l, d) => l.append(if (d < dim) o[d] + c[d] else 0)) }
    val g = layout(r)
    all { req' = r, grid' = g, kern' = kk, rank' = rnd(s, 40, 3), k' = 0,
      cut' = [ONE / 2^30, ONE / 2^30, ONE / 16][rnd(s, 41, 3)],
      pts' = range(0, NP).foldl([], (l, i) => l.append(if (rnd(s, 900 + i, 5) < 3) inner(g, s, i) else point(g, s, i))),
      mass' = range(0, NP).foldl([], (l, i) => l.append((1 + rnd(s, 500 + i, 32)) * ONE / 16)),
      data' = range(0, NP).foldl([], (l, i) => l.append(range(0, 9).foldl([], (m, q) => m.append(odd(s, 600 + 9 * i + q, 20) * ONE / 8)))),
      fld' = range(0, 36).foldl([], (l, i) => l.append(odd(s, 50 + i, 12) * ONE / 8)) }
  }
  // the points move: some by a fraction of a cell, some onto a node, some across the boundary
  action step = {
    nondet s = oneOf(0.to(2^48))
    all { req' = req, grid' = grid, kern' = kern, rank' = rank, cut' = cut, mass' = mass, data' = data, fld' = fld, k' = k + 1,
      pts' = range(0, NP).foldl([], (l, i) => l.append(
        if (rnd(s, 900 + i, 3) == 0) inner(grid, s, i) else if (rnd(s, 900 + i, 3) == 1) point(grid, s, i)
        else range(0, 3).foldl([], (m, d) => m.append(if (d < grid.dim) pts[i][d] + mul(srnd(s, 2000 + 3 * i + d, 60) * ONE / 64, grid.h) else 0)))) }
  }

  pure def T: int = ONE / 2^24
  pure def inside(g: Grid, it: List[Intr]): bool = it.foldl(true, (a, q) => a and q.valid)
  pure def sumBy(it: List[Intr], f: (Intr) => int): int = it.foldl(0, (a, q) => a + f(q))
  // the padded extent is covered, by less than a cell more than needed
  val covers = range(0, grid.dim).foldl(true, (a, d) => a and {
    val last = grid.origin[d] + (grid.n[d] - 1) * grid.h
    val end = req.e[d] + req.pad * req.h
    last >= end - grid.h / 2^19 and last < end + grid.h and grid.origin[d] <= req.o[d] })
  // numbering and positions are inverse to each other
  val numbered = range(0, numNodes(grid)).foldl(true, (a, i) => a and {
    val x = nodePos(grid, i)
    i == nodeId(grid, range(0, grid.dim).foldl([], (l, d) => l.append((x[d] - grid.origin[d] + grid.h / 2) / grid.h))) })
  // partition of unity, linear reproduction, and both of the gradients
  val unity = pts.indices().forall(i => {
    val x = pts[i]
    val it = interactions(kern, grid, x)
    not(inside(grid, it)) or (
      near(sumBy(it, q => q.w), ONE, T)
      and range(0, grid.dim).foldl(true, (a, d) => a and {
        val kink = kern == LINEAR and kinky(base(grid, x, d), 20)
        near(sumBy(it, q => mul(q.w, q.r[d])), 0, T)
        and (kink or (near(sumBy(it, q => q.g[d]), 0, div(T, grid.h)) and range(0, grid.dim).foldl(true, (b, e) => b and
          near(sumBy(it, q => -mul(mul(q.g[d], q.r[e]), grid.h)), if (d == e) ONE else 0, 8 * T)))) })) })
  // each node once, and where the distance says it is
  val located = pts.indices().forall(i => {
    val it = interactions(kern, grid, pts[i]).select(q => q.valid)
    it.foldl(Set(), (a, q) => a.union(Set(q.node))).size() == it.length()
      and it.foldl(true, (a, q) => a and { val p = nodePos(grid, q.node) range(0, grid.dim).foldl(true, (b, d) => b and near(p[d] + mul(q.r[d], grid.h), pts[i][d], T)) }) })
  // what is scattered arrives, what is gathered from an affine field is that field
  val conserved = pts.indices().forall(i => { val it = interactions(kern, grid, pts[i]) not(inside(grid, it)) or near(sumBy(it, q => mul(q.w, mass[i])), mass[i], 8 * T) })
  val inv = covers and numbered and unity and located and conserved
}
module gen_map_2 { import gen_map(DIMS=Set(2), NP=7).* }
module gen_map_3 { import gen_map(DIMS=Set(3), NP=4).* }
