// Trace validation of exported views: particles (0), domains (1), boundaries (2), a run's files and streams (3).
module val_view {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import sdf.* from "./sdf"
  import verdict.* from "./verdict"
  import dec.* from "./verdict"
  import lg.* from "./lg"
  pure val PI: int = 884279719003555
  pure def eps(x: int): int = abs(x) / 2^19 + 2^14
  pure def vmax(l: List[int]): int = l.foldl(0, (m, x) => maxi(m, abs(x)))
  pure def turn9(l: List[int]): List[int] = range(0, l.length()).foldl([], (m, i) => m.append(l[i - i % 9 + 3 * (i % 3) + (i % 9) / 3]))
  pure def differ(a: List[int], b: List[int]): int = range(0, a.length()).foldl(0, (m, i) => maxi(m, abs(a[i] - b[i])))
  // streams of plane views count y downwards
  pure def up(dim: int, tool: int, x: List[int]): List[int] = if (tool == 1 and dim == 2) [x[0], -x[1], x[2]] else x
  // 0: type, dim, tool, n, prop, times given, step given, limits given | scale, time, step, lims | x vol0 data | x r data times steps | how many were drawn
  pure def judgePts(v0: V, f: List[List[int]]): V = {
    val dim = f[0][1]
    val tool = f[0][2]
    val n = f[0][3]
    val prop = f[0][4]
    val sc = f[1][0]
    val v1 = ok_(v0, "P32.complete", 0, f[10][0], f[10][0] == n)
    if (f[10][0] != n) v1 else {
      val v2 = range(0, n).foldl(v1, (u, i) => {
        val u1 = list_(u, "P32.position", i, up(dim, tool, sub(f[5], i, 3)), sub(f[2], i, 3), eps(vmax(sub(f[2], i, 3))))
        // a disc or a ball of the initial volume
        val r = div(f[6][i], sc)
        near_(u1, "P32.radius", i, 0, if (dim == 2) mul(PI, sq(r)) else 4 * mul(PI, mul(r, sq(r))) / 3, f[3][i], 8 * eps(f[3][i])) })
      // values of the property: as they are in files, as shades between the limits in streams
      val w = if (prop == 3 or prop == 2 or prop == 4) f[4].length() / n else 0
      val v3_ =
        if (prop < 2) (if (tool == 0) ok_(v2, "P32.absent", 0, prop, f[7] == []) else v2)
        else if (tool == 0) (
          if (prop == 3) list_(v2, "P32.values", 0, f[7], range(0, n).foldl([], (l, i) => l.concat(sub(f[4], i, w)).concat(range(0, 3 - w).foldl([], (m, j) => m.append(0)))), eps(vmax(f[4])))
          // tensors row by row, or column by column as VTK's own tensors
          else if (prop == 4 and f[7].length() == f[4].length() and differ(f[7], f[4]) > differ(f[7], turn9(f[4]))) list_(v2, "P32.values", 1, f[7], turn9(f[4]), eps(vmax(f[4])))
          else list_(v2, "P32.values", 0, f[7], f[4], eps(vmax(f[4]))))
        else {
          val q = range(0, n).foldl([], (l, i) => l.append(if (prop == 2) f[4][i] else sqrt(sub(f[4], i, w).foldl(0, (m, x) => m + sq(x)))))
          val a = if (f[0][7] == 1 or f[0][7] == 2) f[1][3] else q.foldl(q[0], (m, x) => mini(m, x))
          val b = if (f[0][7] == 1 or f[0][7] == 3) f[1][4] else q.foldl(q[0], (m, x) => maxi(m, x))
          if (b - a <= vmax(q) / 2^16 + ONE / 2^16) v2
          else list_(v2, "P32.shades", 0, f[7], q.foldl([], (l, x) => l.append(div(x - a, b - a))), ONE / 2^17 + 16 * div(eps(vmax(q) + abs(a) + abs(b)), b - a)) }
      val v4 = if (f[0][5] == 1) list_(v3_, "P32.time", 0, f[8], [f[1][1]], eps(f[1][1])) else ok_(v3_, "P32.time", 1, 0, f[8] == [])
      if (f[0][6] == 1) list_(v4, "P32.step", 0, f[9], [f[1][2]], 0) else v4 } }
  // 1: type, dim, tool, boxes | lo hi h | lo hi drawn
  pure def judgeBox(v0: V, f: List[List[int]]): V = {
    val dim = f[0][1]
    val tool = f[0][2]
    val v1 = ok_(v0, "P32.domain", 0, f[0][3], f[0][3] == 1)
    if (f[0][3] != 1) v1 else {
      val a = up(dim, tool, f[4])
      val b = up(dim, tool, f[5])
      val lo = f[1]
      val hi = f[2]
      val tol = eps(vmax(lo) + vmax(hi))
      range(0, dim).foldl(v1, (u, d) => {
        val u1 = near_(u, "P32.domain", 1, d, mini(a[d], b[d]), lo[d], tol)
        le_(ge_(u1, "P32.domain", 2, d, maxi(a[d], b[d]), hi[d], tol), "P32.domain", 3, d, maxi(a[d], b[d]), hi[d] + f[3][0], tol) }) } }
  // 2: type, dim, composite, shapes, tool, number drawn, times given, step given | object | lo hi | step and time asked | res | surface points | vertices normals edges times steps
  pure def object(f: List[List[int]]): Sdf = {
    val n = f[0][3]
    turned({ dim: f[0][1], comp: f[0][2] == 1, rm: IM,
      shapes: range(0, n).foldl([], (l, i) => l.append(shape(f[1][i], f[2 + i]))),
      fr: f[2 + n], com: f[3 + n], rot: f[4 + n], vel: f[5 + n], ang: f[6 + n] }) }
  pure def judgeSdf(v0: V, f: List[List[int]]): V = {
    val o = object(f)
    val dim = o.dim
    val tool = f[0][4]
    val b = 7 + f[0][3]
    val lo = f[b]
    val hi = f[b + 1]
    val span = range(0, dim).foldl([], (l, d) => l.append(hi[d] - lo[d]))
    // the spacing of the samples; 5% more than the window at most
    val h = 21 * vmax(span) / (20 * f[b + 3][0])
    val raw = f[b + 5]
    val nv = raw.length() / 3
    val vs = range(0, nv).foldl([], (l, i) => l.append(up(dim, tool, sub(raw, i, 3))))
    val far = vmax(lo) + vmax(hi) + ONE / 64
    val tol = far / 2^16
    val plain = not(o.comp)
    val flat = plain and (o.shapes[0].k == PLANE or (o.shapes[0].k == BALL and o.shapes[0].p[0] > 3 * h))
    val stride = 1 + nv / 60
    // on the surface, in the window
    val v1 = range(0, nv).foldl(v0, (u, i) => if (i % stride != 0) u else {
      val x = vs[i]
      val u1 = le_(u, "P32.surface", i, if (flat) 1 else 0, abs(dist(o, x)), if (flat) h / 12 else 9 * h / 16, tol)
      range(0, dim).foldl(u1, (w, d) => le_(ge_(w, "P32.window", i, d, x[d], lo[d], tol), "P32.window", i, d, x[d], hi[d] + (hi[d] - lo[d]) / 10 + 2 * h, tol)) })
    // the neighbours of a vertex are near
    val v2 = range(0, f[b + 7].length() / 2).foldl(v1, (u, e) => {
      val x = vs[f[b + 7][2 * e]]
      val y = vs[f[b + 7][2 * e + 1]]
      le_(u, "P32.connected", e, 0, norm(vsub(x, y)), 7 * h / 4, tol) })
    // every point of the surface that is seen by the samples has a vertex close by
    val v3_ = range(0, f[b + 4].length() / 3).foldl(v2, (u, i) => {
      val p = sub(f[b + 4], i, 3)
      val g = grad(o, p, h / 256)
      val inside_ = range(0, dim).foldl(true, (ok, d) => ok and p[d] > lo[d] + 3 * h and p[d] < hi[d] - 3 * h)
      val a = vadd(p, vscale(3 * h / 2, g))
      val c = vsub(p, vscale(3 * h / 2, g))
      if (not(inside_) or not(smooth(g)) or dist(o, a) < 5 * h / 4 or dist(o, c) > -(5 * h / 4)) u
      else ok_(u, "P32.whole", i, nv, vs.foldl(false, (z, x) => z or norm(vsub(x, p)) <= 7 * h / 2)) })
    // normals: across the surface, all of them to the same side
    val ns = f[b + 6]
    val v4 = if (not(flat) or nv == 0 or ns.length() != raw.length()) v3_ else {
      val cs = range(0, nv).foldl([], (l, i) => if (i % stride != 0) l else l.append(dot(sub(ns, i, 3), grad(o, vs[i], h / 64))))
      cs.indices().fold(v3_, (u, i) => ge_(u, "P32.normal", i, 0, if (cs[0] < 0) -cs[i] else cs[i], 7 * ONE / 8, tol)) }
    if (f[0][5] == 0) v4 else {
      val v5 = if (tool == 1) v4 else if (f[0][6] == 1) list_(v4, "P32.time", 2, f[b + 8], [f[b + 2][0]], eps(f[b + 2][0])) else ok_(v4, "P32.time", 3, 0, f[b + 8] == [])
      if (f[0][7] == 1 and tool == 0) list_(v5, "P32.step", 2, f[b + 9], [f[b + 2][1]], 0) else v5 } }
  // 3: type, files of earlier views changed, views in separate files, files beside the directory, streams to be saved, saved
  pure def judgeRun(v0: V, f: List[List[int]]): V =
    ok_(ok_(ok_(ok_(v0, "P32.kept", 0, f[0][1], f[0][1] == 0), "P32.separate", 0, 0, f[0][2] == 1), "P32.beside", 0, f[0][3], f[0][3] == 0), "P32.saves", f[0][4], f[0][5], f[0][4] == f[0][5])
  pure def judge(ev: int): V = {
    val f = fieldsOf(EV[ev])
    val k = f[0][0]
    if (k == 0) judgePts(newV(ev), f) else if (k == 1) judgeBox(newV(ev), f) else if (k == 2) judgeSdf(newV(ev), f) else judgeRun(newV(ev), f) }
  var i: int
  var out: V
  action init = all { i' = 0, out' = newV(0) }
  action step = all { i < EV.length(), i' = i + 1, out' = merge(out, judge(i)) }
}
