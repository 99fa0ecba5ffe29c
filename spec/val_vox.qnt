// Trace validation of objects defined by samples.
module val_vox {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import sdf.* from "./sdf"
  import vox.* from "./vox"
  import verdict.* from "./verdict"
  import dec.* from "./verdict"
  import lg.* from "./lg"
  // 0: type, n, body points, refused | nodes | lo sz | scale thick h | data | com | rot | points, distances, normals, friction | bounds lo hi | body
  pure def judgeVox(v0: V, f: List[List[int]]): V = {
    val w = { n: f[1], lo: f[2], sz: f[3], scale: f[4][0], thick: f[4][1], data: f[5] }
    val o = turned({ dim: 3, comp: false, rm: IM, shapes: [shape(BALL, [ONE])], fr: [0], com: f[6], rot: f[7], vel: ZV, ang: ZV })
    val big = maxabs(w.data)
    // float32: places in the table, then values
    val fine_ = range(0, 3).foldl(0, (m, d) => maxi(m, div((maxabs(f[8]) + maxabs(o.com)) * 4 + mul(abs(w.lo[d]) + w.sz[d], w.scale), mul(w.sz[d], w.scale)) * (w.n[d] - 1))) / 2^20
    val tol = mul(2 * mul(fine_ * 2, 2 * big) + big / 2^20, w.scale) + abs(w.thick) / 2^21 + 64
    val v1 = range(0, f[0][1]).foldl(v0, (v, i) => {
      val q = toLocal(o, sub(f[8], i, 3))
      val u1 = near_(v, "P16.distance", i, 0, f[9][i], vdist(w, q), tol)
      val g0 = slope(w, q)
      val g = toWorld({ ...o, com: ZV }, g0)
      val n = norm(g)
      val step_ = 2 * big * vmaxi(w.n)
      val u2 = if (not(within(w, q, 4 * fine_ + ONE / 2^10)) or n < ONE / 16) u1
        else list_(u1, "P16.normal", i, sub(f[10], i, 3), [div(g[0], n), div(g[1], n), div(g[2], n)], ONE / 2^12 + div(mul(8 * fine_, div(2 * step_, vmini(w.sz))), n))
      near_(u2, "P16.friction", i, 0, f[11][i], ONE, 0) })
    val v2 = range(0, 3).foldl(v1, (v, d) => {
      val e = mul(abs(w.lo[d]) + w.sz[d], w.scale) / 2^20 + abs(w.thick) / 2^20
      near_(near_(v, "P16.bounds", 0, d, f[12][d], mul(w.lo[d], w.scale) - w.thick, e), "P16.bounds", 1, d, f[12][3 + d], mul(w.lo[d] + w.sz[d], w.scale) + w.thick, e) })
    val v3_ = ok_(v2, "P16.refuses", 0, 0, f[0][3] == 1)
    // a body: exactly the centres of the cells that lie inside
    val h = f[4][2]
    val a = range(0, 3).foldl([], (l, d) => l.append(fdiv(f[13][d], h)))
    val b = range(0, 3).foldl([], (l, d) => l.append(-fdiv(-f[14][d], h)))
    val all_ = range(a[0], b[0]).foldl([], (l, i) => l.concat(range(a[1], b[1]).foldl([], (m, j) => m.concat(range(a[2], b[2]).foldl([], (p, k) => p.append([i * h + h / 2, j * h + h / 2, k * h + h / 2]))))))
    val m = f[0][2]
    val ds = all_.foldl([], (l, x) => l.append(vdist(w, toLocal(o, x))))
    val sure = ds.select(d => d < -tol * 2).length()
    val most = ds.select(d => d < tol * 2).length()
    val v4 = ok_(v3_, "P16.body", m, sure, sure <= m and m <= most)
    range(0, m).foldl(v4, (v, i) => le_(v, "P16.inside", i, 0, vdist(w, toLocal(o, sub(f[15], i, 3))), 0, tol * 2)) }
  pure def vmaxi(l: List[int]): int = l.foldl(0, (m, x) => maxi(m, x))
  pure def vmini(l: List[int]): int = l.foldl(l[0], (m, x) => mini(m, x))
  // 1: type, dim, points, asked | k | positions | volumes | asked, distances, normals
  pure def judgeCloud(v0: V, f: List[List[int]]): V = {
    val dim = f[0][1]
    val k = f[1][0]
    val xs = range(0, f[0][2]).foldl([], (l, i) => l.append(sub(f[2], i, 3)))
    val rs = range(0, f[0][2]).foldl([], (l, i) => l.append(radius(dim, f[3][i])))
    range(0, f[0][3]).foldl(v0, (v, i) => {
      val x = sub(f[4], i, 3)
      val l = gaps(xs, rs, x)
      val d = cdist(k, l)
      val u1 = near_(v, "P16.cloud", i, 0, f[5][i], d, ONE / 2^17 + (if (k == 0) 0 else div(ONE / 2^19, k)))
      // the union: nothing deeper than the blend allows, nothing outside a point
      val u2 = le_(ge_(u1, "P16.union", i, 0, f[5][i], minL(l) - (if (k == 0) 0 else div(ln(l.length() * ONE), k)), ONE / 2^16), "P16.union", i, 1, f[5][i], minL(l), ONE / 2^16)
      val g = cnormal(k, xs, l, x)
      val n = norm(g)
      val close_ = xs.foldl(false, (z, y) => z or norm(vsub(x, y)) < ONE / 64)
      val tie = k == 0 and l.select(e => e < minL(l) + ONE / 2^14).length() > 1
      if (close_ or tie or n < ONE / 64) u2 else list_(u2, "P16.cloudnormal", i, sub(f[6], i, 3), [div(g[0], n), div(g[1], n), div(g[2], n)], ONE / 2^14 + div(mul(k + ONE, ONE / 2^17), n)) }) }
  pure def judge(ev: int): V = { val f = fieldsOf(EV[ev]) if (f[0][0] == 0) judgeVox(newV(ev), f) else judgeCloud(newV(ev), f) }
  var i: int
  var out: V
  action init = all { i' = 0, out' = newV(0) }
  action step = all { i < EV.length(), i' = i + 1, out' = merge(out, judge(i)) }
}
