// Trace validation of grids (event type 0) and of the mapping between points
// and grid (1).
module val_map {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import kernel.* from "./kernel"
  import verdict.* from "./verdict"
  import dec.* from "./verdict"
  import lg.* from "./lg"

  pure def pad3(l: List[int], z: int): List[int] = if (l.length() == 2) [l[0], l[1], z] else l
  // header: type, dim, kernel, points, rank, ...
  // 0 grid: [requested origin] [requested end] [h, pad] | [origin] [end] [h] [sizes] [number of nodes] [mesh shape] [array sizes] [node positions]
  pure def judgeGrid(v: V, f: List[List[int]]): V = {
    val dim = f[0][1]
    val h = f[3][0]
    val pad = f[3][1]
    val o = f[4]
    val n = f[7]
    val g = { dim: dim, h: h, origin: pad3(o, 0), n: pad3(n, 1) }
    val tol = ONE / 2^18 + h / 2^17
    val v1 = near_(v, "P29.cell", 0, 0, f[6][0], h, h / 2^22)
    val v2 = range(0, dim).foldl(v1, (u, d) => {
      val last = o[d] + (n[d] - 1) * h
      val u1 = near_(u, "P29.origin", d, 0, o[d], f[1][d] - pad * h, tol)
      val u2 = ge_(u1, "P29.covers", d, 0, last, f[2][d] + pad * h, tol)
      val u3 = le_(u2, "P29.snug", d, 0, last, f[2][d] + (pad + 1) * h, tol)
      val u4 = ge_(u3, "P29.end", d, 0, f[5][d], f[2][d], tol)
      le_(u4, "P29.end", d, 1, f[5][d], last, tol) })
    val num = range(0, dim).foldl(1, (a, d) => a * n[d])
    val v3_ = ok_(v2, "P29.count", 0, num, f[8][0] == num and f[11].length() == num * dim)
    val v4 = ok_(v3_, "P29.mesh", 0, 0, f[9] == n.append(dim))
    val v5 = ok_(v4, "P29.arrays", 0, 0, f[10] == [num, num * dim, num * dim, num * dim, 0])
    if (f[11].length() != num * dim) v5
    else range(0, num).foldl(v5, (u, i) => list_(u, "P29.position", i, sub(f[11], i, dim), nodePos(g, i).slice(0, dim), tol))
  }

  // 1 mapping: [origin] [h, cut] [sizes] | points | nodes, values, gradients, distances, point ids |
  //   masses, data, scattered, scattered and normalised | affine field coefficients, node field, gathered
  type Acc = { m: int -> int, ok: bool }
  pure def judgeMap(v0: V, f: List[List[int]]): V = {
    val hd = f[0]
    val dim = hd[1]
    val K = hd[2]
    val np = hd[3]
    val D = hd[4]                  // components of the data
    val g = { dim: dim, h: f[2][0], origin: pad3(f[1], 0), n: pad3(f[3], 1) }
    val nn = numNodes(g)
    val node = f[5]
    val w = f[6]
    val gr = f[7]
    val rd = f[8]
    val pid = f[9]
    val ih = div(ONE, g.h)
    val sz = ONE + f[4].foldl(0, (m, x) => maxi(m, abs(x))) + g.origin.foldl(0, (m, x) => maxi(m, abs(x)))
    val tr_ = mul(sz, ih) / 2^20 + ONE / 2^20         // float32 error of a distance in cells
    val tw = 3 * tr_
    val tg = mul(ih, 6 * tr_)
    val v1 = ok_(v0, "P02.points", np, 0, pid.indices().forall(i => pid[i] >= 0 and pid[i] < np))
    val v2 = range(0, np).foldl(v1, (v, p) => {
      val x = sub(f[4], p, 3)
      val it = interactions(K, g, x)
      val mine = pid.indices().filter(i => pid[i] == p and (w[i] != 0 or sub(gr, i, 3) != ZV)).fold([], (l, i) => l.append(i))
      // interactions that carry weight name a node of the grid, once, and the distance to it
      val u1 = mine.foldl(v, (u, i) => {
        val on = node[i] >= 0 and node[i] < nn
        val a1 = ok_(u, "P02.node", p, node[i], on)
        val y = if (on) nodePos(g, node[i]) else ZV
        val r = sub(rd, i, 3)
        val a2 = list_(a1, "P02.distance", i, r, v3(d => if (d < dim) div(x[d] - y[d], g.h) else 0), tr_)
        ge_(a2, "P01.nonnegative", p, i, w[i], 0, ONE / 2^22) })
      val u2 = ok_(u1, "P02.once", p, 0, mine.foldl(Set(), (s, i) => s.union(Set(node[i]))).size() == mine.length())
      // by node: what the kernel gives at the distance
      val near0 = range(0, dim).foldl(false, (b, d) => b or kinky(base(g, x, d), 12))
      val flat = K == LINEAR and near0
      val u3 = it.foldl(u2, (u, q) => if (not(q.valid)) u else {
        val js = mine.select(i => node[i] == q.node)
        val cw = js.foldl(0, (a, i) => a + w[i])
        val cg = js.foldl(ZV, (a, i) => vadd(a, sub(gr, i, 3)))
        val a1 = near_(u, "P01.value", p, q.node, cw, q.w, tw)
        if (flat) a1 else list_(a1, "P01.gradient", q.node, cg, q.g, tg) })
      // nothing beside the stencil
      val u4 = mine.foldl(u3, (u, i) => if (it.select(q => q.valid and q.node == node[i]).length() > 0) u
        else near_(u, "P02.stencil", p, node[i], w[i], 0, tw))
      val in_ = it.foldl(true, (a, q) => a and q.valid)
      val sw = mine.foldl(0, (a, i) => a + w[i])
      if (not(in_)) u4
      else {
        val b1 = near_(u4, "P01.unity", p, 0, sw, ONE, ONE / 2^18)
        val b2 = list_(b1, "P01.linear", p, mine.foldl(ZV, (a, i) => vadd(a, vscale(w[i], sub(rd, i, 3)))), ZV, ONE / 2^17 + tr_)
        if (flat) b2 else {
          val b3 = list_(b2, "P01.gradsum", p, mine.foldl(ZV, (a, i) => vadd(a, sub(gr, i, 3))), ZV, ih / 2^16)
          list_(b3, "P01.gradlinear", p, mine.foldl(ZM, (a, i) => msub(a, mscale(g.h, outer(sub(gr, i, 3), sub(rd, i, 3))))),
            [ONE, 0, 0, 0, ONE, 0, 0, 0, if (dim == 2) 0 else ONE], ONE / 2^15 + 8 * tr_) } } })
    // transfers of data
    val its = range(0, np).foldl([], (l, p) => l.append(interactions(K, g, sub(f[4], p, 3))))
    val ms = f[10]
    val dm = f[11].foldl(0, (m, x) => maxi(m, abs(x))) + ONE / 2^10
    val mm_ = ms.foldl(0, (a, x) => a + x)
    val tot = range(0, np).foldl(Map(), (acc, p) => its[p].foldl(acc, (m, q) =>
      if (not(q.valid)) m else m.put(q.node, (if (m.keys().contains(q.node)) m.get(q.node) else []).append((p, mul(q.w, ms[p]))))))
    val ts = mul(mul(tw, mm_), dm) + mul(mm_, dm) / 2^20
    val v3_ = range(0, nn).foldl(v2, (v, i) => {
      val l = if (tot.keys().contains(i)) tot.get(i) else []
      val wm = l.foldl(0, (a, t) => a + t._2)
      val want = range(0, D).foldl([], (r, c) => r.append(l.foldl(0, (a, t) => a + mul(t._2, f[11][t._1 * D + c]))))
      val a1 = list_(v, "P02.scatter", i, sub(f[12], i, D), want, ts)
      if (wm > f[2][1] + mul(tw, mm_) and wm > 16 * mul(tw, mm_) + ONE / 2^12)
        list_(a1, "P02.average", i, sub(f[13], i, D), want.foldl([], (r, x) => r.append(div(x, wm))), div(2 * ts, wm) + dm / 2^18)
      else if (wm < f[2][1] - mul(tw, mm_) or (wm == 0 and l.length() == 0)) list_(a1, "P02.empty", i, sub(f[13], i, D), want.foldl([], (r, x) => r.append(0)), 0)
      else a1 })
    val fm = f[15].foldl(0, (m, x) => maxi(m, abs(x))) + ONE / 2^10
    val v4 = ok_(v3_, "P02.shape", 0, 0, f[16].length() == np * D and f[12].length() == nn * D and f[13].length() == nn * D)
    if (f[16].length() != np * D) v4
    else range(0, np).foldl(v4, (v, p) => {
      val want = range(0, D).foldl([], (r, c) => r.append(its[p].foldl(0, (a, q) => if (q.valid) a + mul(q.w, f[15][q.node * D + c]) else a)))
      val a1 = list_(v, "P02.gather", p, sub(f[16], p, D), want, 64 * mul(tw, fm))
      if (not(its[p].foldl(true, (a, q) => a and q.valid))) a1
      else {
        val x = sub(f[4], p, 3)
        // an affine field is interpolated exactly
        list_(a1, "P01.affine", p, sub(f[16], p, D), range(0, D).foldl([], (r, c) =>
          r.append(f[14][4 * c] + dot(f[14].slice(4 * c + 1, 4 * c + 4), x))), 64 * mul(tw, fm) + fm / 2^17) } })
  }
  pure def judge(ev: int): V = {
    val f = fieldsOf(EV[ev])
    if (f[0][0] == 0) judgeGrid(newV(ev), f) else judgeMap(newV(ev), f) }
  var i: int
  var out: V
  action init = all { i' = 0, out' = newV(0) }
  action step = all { i < EV.length(), i' = i + 1, out' = merge(out, judge(i)) }
}
