// Generator: tables, clouds and the points asked for.
module gen_vox {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import sdf.* from "./sdf"
  import sdfgen.* from "./sdfgen"
  import vox.* from "./vox"
  import scen.rnd from "./scen"
  import scen.srnd from "./scen"
  import scen.odd from "./scen"
  const NQ: int
  type Cloud = { dim: int, xs: List[List[int]], vols: List[int], k: int }
  var v: Vox
  var o: Sdf        // the pose
  var c: Cloud
  var pts: List[List[int]]      // in the world of the table
  var cpts: List[List[int]]
  var h: int                    // spacing of a body generated in the table
  pure def mkVox(s: int, u: int): Vox = {
    val n = [2 + rnd(s, 1, 3), 2 + rnd(s, 2, 3), 2 + rnd(s, 3, 3)]
    val m = n[0] * n[1] * n[2]
    val kind = rnd(s, 4, 3)
    val lo = [srnd(s, 5, 40) * u / 16, srnd(s, 6, 40) * u / 16, srnd(s, 7, 40) * u / 16]
    val sz = [len_(u, s, 8, 4, 32), len_(u, s, 9, 4, 32), len_(u, s, 10, 4, 32)]
    { n: n, lo: lo, sz: sz,
      // a ball's distances, or anything
      data: range(0, m).foldl([], (l, i) => l.append(if (kind == 0) odd(s, 100 + i, 60) * u / 64 else {
        val x = [sz[0] * (i / (n[1] * n[2])) / (n[0] - 1) - sz[0] / 2, sz[1] * (i / n[2] % n[1]) / (n[1] - 1) - sz[1] / 2, sz[2] * (i % n[2]) / (n[2] - 1) - sz[2] / 2]
        norm(x) - len_(u, s, 11, 4, 12) + (if (kind == 1) 0 else srnd(s, 100 + i, 20) * u / 256) })),
      scale: [ONE, ONE, ONE / 2, 3 * ONE / 2, 3 * ONE][rnd(s, 12, 5)], thick: [28147, 0, u / 8, u / 2, -u / 8][rnd(s, 13, 5)] } }
  pure def mkCloud(s: int): Cloud = {
    val dim = 2 + rnd(s, 1, 2)
    val n = 1 + rnd(s, 2, 5)
    { dim: dim, k: [2 * ONE, 2 * ONE, 0, 8 * ONE, 40 * ONE, ONE / 4][rnd(s, 3, 6)],
      xs: range(0, n).foldl([], (l, i) => l.append([srnd(s, 10 + 3 * i, 40) * ONE / 16, srnd(s, 11 + 3 * i, 40) * ONE / 16, if (dim == 3) srnd(s, 12 + 3 * i, 40) * ONE / 16 else 0])),
      vols: range(0, n).foldl([], (l, i) => l.append((1 + rnd(s, 30 + i, 64)) * ONE / 32)) } }
  pure def mkPose(s: int): Sdf = turned({ dim: 3, comp: false, rm: IM, shapes: [shape(BALL, [ONE])], fr: [0],
    com: [srnd(s, 30, 30) * ONE / 16, srnd(s, 31, 30) * ONE / 16, srnd(s, 32, 30) * ONE / 16], rot: if (rnd(s, 33, 3) == 0) [ONE, 0, 0, 0] else newQuat(s, 34), vel: ZV, ang: ZV })
  // points of the box, mostly inside, some on nodes, some outside
  pure def ask(w: Vox, p: Sdf, s: int, i: int): List[int] = {
    val kind = rnd(s, 400 + i, 6)
    val q = range(0, 3).foldl([], (l, d) => {
      val f = if (kind == 0) rnd(s, 410 + 3 * i + d, w.n[d]) * ONE / (w.n[d] - 1) else if (kind == 1) srnd(s, 410 + 3 * i + d, 65) * ONE / 32 else (rnd(s, 410 + 3 * i + d, 1021) + 1) * ONE / 1023
      l.append(mul(w.lo[d] + mul(f, w.sz[d]), w.scale)) })
    toWorld(p, q) }
  action pick = {
    nondet s = oneOf(0.to(2^48))
    nondet s2 = oneOf(0.to(2^48))
    nondet s3 = oneOf(0.to(2^48))
    val u = [ONE, ONE, ONE / 8, R(8)][rnd(s, 90, 4)]
    val w = mkVox(s, u)
    val p = mkPose(s2)
    val cl = mkCloud(s3)
    all { v' = w, o' = p, c' = cl, h' = mul(vmaxabs(w.sz), w.scale) / (3 + rnd(s, 91, 2)),
      pts' = range(0, NQ).foldl([], (l, i) => l.append(ask(w, p, s2, i))),
      cpts' = range(0, NQ).foldl([], (l, i) => l.append([srnd(s3, 500 + 3 * i, 60) * ONE / 16 + ONE / 64, srnd(s3, 501 + 3 * i, 60) * ONE / 16, if (cl.dim == 3) srnd(s3, 502 + 3 * i, 60) * ONE / 16 else 0])) } }
  action init = pick
  action step = pick
  // ---- theorems
  // the table's own values at its nodes
  val atNodes = range(0, v.n[0] * v.n[1] * v.n[2]).foldl(true, (ok, i) => {
    val j = [i / (v.n[1] * v.n[2]), i / v.n[2] % v.n[1], i % v.n[2]]
    val q = [mul(v.lo[0] + v.sz[0] * j[0] / (v.n[0] - 1), v.scale), mul(v.lo[1] + v.sz[1] * j[1] / (v.n[1] - 1), v.scale), mul(v.lo[2] + v.sz[2] * j[2] / (v.n[2] - 1), v.scale)]
    ok and abs(vdist(v, q) - (mul(v.data[i], v.scale) - v.thick)) <= 2^20 })
  // never beyond the values of the table
  val bounded = { val hi = v.data.foldl(v.data[0], (m, x) => maxi(m, x)) val lo = v.data.foldl(v.data[0], (m, x) => mini(m, x))
    pts.foldl(true, (ok, x) => { val t = table(v, toLocal(o, x)) ok and t <= hi + 16 and t >= lo - 16 }) }
  // a blend lies inside the union and not deeper than ln n / k
  val blended = cpts.foldl(true, (ok, x) => {
    val l = gaps(c.xs, c.vols.foldl([], (m, w) => m.append(radius(c.dim, w))), x)
    val d = cdist(c.k, l)
    ok and d <= minL(l) + 64 and (c.k == 0 or d >= minL(l) - div(ln(l.length() * ONE), c.k) - 64) })
  val inv = atNodes and bounded and blended
}
module gen_vox_main { import gen_vox(NQ=10).* }
