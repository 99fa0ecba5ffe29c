// Generator: what is exported for visualisation, view after view.
module gen_view {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import sdf.* from "./sdf"
  import sdfgen.* from "./sdfgen"
  import gen_sdf(DIMS=Set(2), NQ=2) as S from "./gen_sdf"
  import scen.rnd from "./scen"
  import scen.srnd from "./scen"
  import scen.odd from "./scen"
  const DIMS: Set[int]

  // kind 0 particles, 1 domain, 2 boundary; tool 0 files, 1 stream
  // prop: which property (0 none, 1 one nobody has, 2 scalars, 3 vectors, 4 tensors), which: its place in the list of the harness
  type View = { kind: int, tool: int, label: int, step: int, time: int, prop: int, which: int, scale: int, pts: List[List[int]], data: List[List[int]], mass: List[int], vol: List[int], vol0: List[int],
    lo: List[int], hi: List[int], h: int, res: int, o: Sdf, srf: List[List[int]], lims: List[int], still: bool }
  var dim: int
  var seed: int
  var mode: List[int]      // how the streams are opened: 0 spawn, 1 save, 2 neither
  var v: View
  pure val STEPS: List[int] = [-1, 0, 7, 7, 10, 99999, 100000, 1234567]
  pure def triple(s: int, i: int, u: int, d: int): List[int] = [srnd(s, i, 60) * u / 16, srnd(s, i + 1, 60) * u / 16, if (d == 3) srnd(s, i + 2, 60) * u / 16 else 0]
  // limits of the colours: which are given (0 none, 1 both, 2 the lower, 3 the upper), and the limits
  pure def mkLims(s: int): List[int] = {
    val w = rnd(s, 33, 4)
    val a = if (rnd(s, 34, 3) == 0) 0 else srnd(s, 37, 40) * ONE / 4
    val b = a + (1 + rnd(s, 35, 80)) * ONE / 4
    if (w == 0) [0, 0, 0] else if (rnd(s, 38, 4) == 0) [w, a - b, 0] else [w, a, b] }
  pure def mkView(d: int, s: int, kind: int): View = {
    val n = 1 + rnd(s, 1, 5)
    val u = [ONE, ONE, ONE / 8, R(20)][rnd(s, 2, 4)]
    // a window anywhere, mostly not at the origin; the object lies in it or sticks out
    val lo = range(0, 3).foldl([], (l, i) => l.append(if (i >= d) 0 else srnd(s, 10 + i, 60) * u / 4))
    val hi = range(0, 3).foldl([], (l, i) => l.append(if (i >= d) 0 else lo[i] + (3 + rnd(s, 13 + i, 4)) * u))
    val mid = [(lo[0] + hi[0]) / 2, (lo[1] + hi[1]) / 2, (lo[2] + hi[2]) / 2]
    val off = [srnd(s, 20, 9) * u / 6, srnd(s, 21, 9) * u / 6, if (d == 3) srnd(s, 22, 9) * u / 6 else 0]
    val k = [BALL, if (d == 2) (if (rnd(s, 24, 3) == 0) WALLS else RING) else BALL, PLANE, BOX, if (d == 2) RING else BOX, if (d == 2) K2[rnd(s, 24, 8)] else K3[rnd(s, 24, 8)]][rnd(s, 23, 6)]
    val o1 = newSdf(d, u, rnd(s, 25, 2^40), k, rnd(s, 26, 8) == 0)
    val o2 = if (not(o1.comp) and o1.shapes[0].k == DOMAIN) { val p = o1.shapes[0].p
        { ...o1, shapes: [{ k: DOMAIN, p: range(0, p.length()).foldl([], (l, i) => l.append(if (i < 3) p[i] + mid[i] - (p[3 + i] - p[i]) / 2 - p[i] else if (i < 6) mid[i - 3] + (p[i] - p[i - 3]) / 2 else p[i])) }] } }
      else turned({ ...o1, com: vadd(mid, off) })
    { kind: kind, tool: rnd(s, 3, 2), label: rnd(s, 4, 3), step: STEPS[rnd(s, 5, STEPS.length())], time: if (rnd(s, 6, 3) == 0) -1 else rnd(s, 7, 4000) * ONE / 64,
      prop: rnd(s, 8, 5), which: rnd(s, 9, 100), scale: [ONE, ONE, ONE / 2, 2 * ONE][rnd(s, 30, 4)],
      pts: range(0, n).foldl([], (l, i) => l.append(triple(s, 100 + 3 * i, ONE, d))), data: range(0, n).foldl([], (l, i) => l.append(range(0, 9).foldl([], (m, j) => m.append(odd(s, 130 + 9 * i + j, 100) * ONE / 8)))),
      mass: range(0, n).foldl([], (l, i) => l.append((1 + rnd(s, 180 + i, 40)) * ONE / 8)), vol: range(0, n).foldl([], (l, i) => l.append((1 + rnd(s, 190 + i, 40)) * ONE / 32)), vol0: range(0, n).foldl([], (l, i) => l.append((1 + rnd(s, 200 + i, 40)) * ONE / 32)),
      lo: lo, hi: hi, h: [u / 4, u / 2, u / 10, u / 3][rnd(s, 31, 4)], res: if (d == 2) 24 + rnd(s, 32, 16) else 14 + rnd(s, 32, 6), o: o2,
      srf: range(0, 8).foldl([], (l, i) => l.append(toWorld(o2, S::onSurface(d, o2.shapes[rnd(s, 210 + i, o2.shapes.length())], s, 220 + 20 * i)))),
      lims: mkLims(s), still: rnd(s, 36, 3) == 0 } }
  action init = {
    nondet d = oneOf(DIMS)
    nondet s = oneOf(0.to(2^48))
    all { dim' = d, seed' = s, mode' = range(0, 1 + rnd(s, 1, 3)).foldl([], (l, i) => l.append(rnd(s, 2 + i, 3))), v' = mkView(d, s, 0) }
  }
  action step = {
    nondet s = oneOf(0.to(2^48))
    all { dim' = dim, seed' = seed, mode' = mode, v' = mkView(dim, s, [0, 0, 1, 2, 2][rnd(s, 40, 5)]) }
  }
  // ---- theorems: the parametrised points lie on the surface; the window is a box
  val onIt = v.srf.foldl(true, (ok, x) => ok and { val d = dist(v.o, x) d <= maxabs3(x) / 2^20 + 2^20 and (v.o.comp or d >= -maxabs3(x) / 2^20 - 2^20) })
  pure def maxabs3(x: List[int]): int = maxi(abs(x[0]), maxi(abs(x[1]), abs(x[2]))) + ONE
  val box = range(0, dim).foldl(true, (ok, i) => ok and v.lo[i] < v.hi[i])
  val inv = onIt and box
}
module gen_view_2 { import gen_view(DIMS=Set(2)).* }
module gen_view_3 { import gen_view(DIMS=Set(3)).* }
