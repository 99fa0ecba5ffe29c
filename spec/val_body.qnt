// Trace validation of created points (event type 0) and of bodies cut from
// lattices or sampled (1).
module val_body {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import sdf.* from "./sdf"
  import hlp.* from "./hlp"
  import body.* from "./body"
  import verdict.* from "./verdict"
  import dec.* from "./verdict"
  import lg.* from "./lg"

  pure def eps(x: int): int = abs(x) / 2^19 + 2^14
  // 0 created: type, dim, n, rigid, index expected, index returned, store of F there, normals given | arguments given | h, ppc |
  //   3 arguments: x v f m vol vol0 L s F dens normals | 14 built: x v f m vol vol0 L s F, store |
  //   24 density, reference density, p, q, KE, eps, eps_v, rate, shear rate, shear strain, stored eps, stored shear | 36 number, dim
  pure def judgeNew(v0: V, f: List[List[int]]): V = {
    val hd = f[0]
    val dim = hd[1]
    val n = hd[2]
    val on = f[1]
    val v1 = ok_(ok_(v0, "P30.index", 0, hd[5], hd[4] == hd[5]), "P30.sizes", 0, 0, f[36] == [n, dim])
    if (hd[3] == 1)
      range(0, n).foldl(v1, (u, i) => {
        val a1 = list_(u, "P30.rigid", i, sub(f[14], i, 3), sub(f[3], i, 3), 0)
        val a2 = list_(a1, "P30.rigid", i, sub(f[15], i, 3), ZV, 0)
        val a3 = near_(a2, "P30.rigid", i, 1, f[17][i], ONE, 0)
        list_(a3, "P30.rigid", i, sub(f[16], i, 3), if (hd[7] == 1) sub(f[13], i, 3) else ZV, 0) })
    else {
      val o: Opt = { vel: on[0] == 1, force: on[1] == 1, mass: on[2] == 1, vol: on[3] == 1, vol0: on[4] == 1, L: on[5] == 1, stress: on[6] == 1, F: on[7] == 1,
        store: on[8] == 1, cell: on[9] == 1, ppc: on[10] == 1, dens: on[11] == 1 }
      val v2 = ok_(v1, "P30.store", 0, 0, (hd[6] == 1) == o.store)
      range(0, n).foldl(v2, (u, i) => {
        val it: Item = { x: sub(f[3], i, 3), v: sub(f[4], i, 3), f: sub(f[5], i, 3), m: f[6][i], vol: f[7][i], vol0: f[8][i], L: sub(f[9], i, 9), s: sub(f[10], i, 9), F: sub(f[11], i, 9), dens: f[12][i] }
        val p = created(o, dim, f[2][0], f[2][1], it)
        val a1 = list_(u, "P30.given", i, sub(f[14], i, 3), p.x, 0)
        val a2 = list_(a1, if (o.vel) "P30.given" else "P30.default", i, sub(f[15], i, 3), p.v, 0)
        val a3 = list_(a2, if (o.force) "P30.given" else "P30.default", i, sub(f[16], i, 3), p.f, 0)
        val a4 = near_(a3, if (o.mass) "P30.given" else "P30.mass", i, 0, f[17][i], p.m, if (o.mass) 0 else eps(p.m))
        val a5 = near_(a4, if (o.vol) "P30.given" else "P30.volume", i, 0, f[18][i], p.vol, if (o.vol) 0 else eps(p.vol))
        val a6 = near_(a5, if (o.vol0) "P30.given" else "P30.volume", i, 1, f[19][i], p.vol0, if (o.vol0 or o.vol) 0 else eps(p.vol0))
        val a7 = list_(a6, if (o.L) "P30.given" else "P30.default", i, sub(f[20], i, 9), p.L, 0)
        val a8 = list_(a7, if (o.stress) "P30.given" else "P30.default", i, sub(f[21], i, 9), p.s, 0)
        val a9 = list_(a8, if (o.F) "P30.given" else "P30.default", i, sub(f[22], i, 9), p.F, 0)
        val b0 = if (o.store and hd[6] == 1) list_(a9, "P30.store", i, sub(f[23], i, 9), p.F, 0) else a9
        // what is derived of it
        val rho = div(p.m, p.vol)
        val b1 = near_(b0, "P30.density", i, 0, f[24][i], rho, 2 * eps(rho))
        val rho0 = div(p.m, p.vol0)
        val b2 = near_(b1, "P30.density", i, 1, f[25][i], rho0, 2 * eps(rho0))
        val ms = eps(mmaxabs(p.s))
        val b3 = near_(b2, "P30.pressure", i, 0, f[26][i], press(p.s), ms)
        val b4 = near_(b3, "P30.q", i, 0, f[27][i], qvm(p.s), 16 * ms + 2^25)
        val b5 = near_(b4, "P30.kinetic", i, 0, f[28][i], kinetic(p.m, p.v), 2 * eps(kinetic(p.m, p.v)))
        val e = sub(f[29], i, 9)
        val C = mm(p.F, transp(p.F))
        val b6 = if (det(p.F) < ONE / 2^8 or not(allFinite(e))) finite_(b5, "P30.strain", i, e) else list_(ok_(b5, "P30.strain", i, 0, issym(e, ONE / 2^18)), "P30.strain", i, mexp(mscale(-2 * ONE, e)), C, mmaxabs(C) / 2^13)
        val b7 = near_(b6, "P30.strain", i, 1, f[30][i], tr(e), ONE / 2^16)
        val b8 = list_(b7, "P30.rate", i, sub(f[31], i, 9), sym(p.L), eps(mmaxabs(p.L)))
        val b9 = near_(b8, "P30.rate", i, 1, f[32][i], eqStrain(sym(p.L)), 16 * eps(mmaxabs(p.L)) + ONE / 2^23)
        val c1 = near_(b9, "P30.strain", i, 2, f[33][i], eqStrain(e), ONE / 2^15)
        if (not(o.store) or hd[6] != 1) c1
        else near_(list_(c1, "P30.store", i, sub(f[34], i, 9), e, ONE / 2^15), "P30.store", i, 3, f[35][i], eqStrain(e), ONE / 2^15) }) } }

  // 1 cut: type, dim, composite, shapes, mode, number asked for, repeatable, other key differs | object | [h, ppc] lo hi | points
  pure def object(f: List[List[int]]): Sdf = {
    val n = f[0][3]
    turned({ dim: f[0][1], comp: f[0][2] == 1, rm: IM,
      shapes: range(0, n).foldl([], (l, i) => l.append(shape(f[1][i], f[2 + i]))),
      fr: f[2 + n], com: f[3 + n], rot: f[4 + n], vel: f[5 + n], ang: f[6 + n] }) }
  pure def reach(a: List[int]): int = a.foldl(0, (m, x) => maxi(m, abs(x)))
  pure def code(k: List[int]): int = (k[0] + 8192) + 16384 * ((k[1] + 8192) + 16384 * (k[2] + 8192))
  pure def nearest(ps: List[int], x: int): int = ps.indices().fold(0, (a, j) => if (abs(ps[j] - x) < abs(ps[a] - x)) j else a)
  pure def judgeCut(v0: V, f: List[List[int]]): V = {
    val o = object(f)
    val dim = o.dim
    val b = 7 + f[0][3]
    val h = f[b][0]
    val lo = f[b + 1]
    val hi = f[b + 2]
    val pts = f[b + 3]
    val np = pts.length() / 3
    val mode = f[0][4]
    val big = ONE + reach(lo) + reach(hi) + reach(o.com)
    val tol = big / 2^15
    if (mode == 2) {
      val v1 = ok_(v0, "P30.sampled", 0, np, np <= f[0][5])
      val v2 = ok_(v1, "P30.repeatable", 0, 0, f[0][6] == 1 and (f[0][7] == 1 or np == 0))
      val v3_ = range(0, np).foldl(v2, (u, i) => {
        val x = sub(pts, i, 3)
        val u1 = range(0, dim).foldl(u, (w, d) => le_(ge_(w, "P30.bounds", i, d, x[d], lo[d], big / 2^20), "P30.bounds", i, d, x[d], hi[d], big / 2^20))
        le_(u1, "P30.inside", i, 0, dist(o, x), 0, tol) })
      // a convex shape around all of the bounds: every sample is kept, and they are spread
      val convex = not(o.comp) and (o.shapes[0].k == BOX or o.shapes[0].k == BALL)
      val around = range(0, 8).foldl(true, (ok, c) => ok and dist(o, [if (c % 2 == 0) lo[0] else hi[0], if (c / 2 % 2 == 0) lo[1] else hi[1], if (c / 4 == 0) lo[2] else hi[2]]) < -tol)
      if (not(convex and around)) v3_
      else range(0, dim).foldl(ok_(v3_, "P30.sampled", 1, np, np == f[0][5]), (w, d) => {
        val m = (lo[d] + hi[d]) / 2
        val left = range(0, np).select(i => pts[3 * i + d] < m).length()
        ok_(w, "P30.spread", d, left, left > 0 and left < np) }) }
    else {
      val n = perDim(f[b][1], dim)
      val ps = places(mode == 1, n)
      val dl = h / 2^9
      val may0 = range(0, 3).foldl([], (l, d) => l.append(if (d >= dim) 0 else fdiv(lo[d] - dl, h)))
      val may1 = range(0, 3).foldl([], (l, d) => l.append(if (d >= dim) 1 else cdiv(hi[d] + dl, h)))
      val must0 = range(0, 3).foldl([], (l, d) => l.append(if (d >= dim) 0 else fdiv(lo[d] + dl, h)))
      val must1 = range(0, 3).foldl([], (l, d) => l.append(if (d >= dim) 1 else cdiv(hi[d] - dl, h)))
      val seen_ = range(0, np).foldl((v0, Set()), (acc, i) => {
        val x = sub(pts, i, 3)
        val cell = range(0, 3).foldl([], (l, d) => l.append(if (d >= dim) 0 else fdiv(x[d], h)))
        val js = range(0, 3).foldl([], (l, d) => l.append(if (d >= dim) 0 else nearest(ps, div(x[d] - cell[d] * h, h))))
        val u1 = range(0, dim).foldl(acc._1, (w, d) => {
          val w1 = near_(w, "P30.lattice", i, d, x[d], cell[d] * h + mul(h, ps[js[d]]), big / 2^19 + h / 2^17)
          ok_(w1, "P30.bounds", i, d, cell[d] >= may0[d] and cell[d] < may1[d]) })
        val u2 = le_(u1, "P30.inside", i, 0, dist(o, x), 0, tol)
        (u2, acc._2.union(Set(code([cell[0] * n + js[0], cell[1] * n + js[1], if (dim == 2) 0 else cell[2] * n + js[2]])))) })
      val have = seen_._2
      val v1 = ok_(seen_._1, "P30.distinct", 0, np, have.size() == np)
      // every point of the lattice inside the shape
      val sx = (must1[0] - must0[0]) * n
      val sy = (must1[1] - must0[1]) * n
      val sz = if (dim == 2) 1 else (must1[2] - must0[2]) * n
      range(0, maxi(0, sx) * maxi(0, sy) * maxi(0, sz)).foldl(v1, (u, t) => {
        val k = [must0[0] * n + t % sx, must0[1] * n + t / sx % sy, if (dim == 2) 0 else must0[2] * n + t / sx / sy]
        val x = range(0, 3).foldl([], (l, d) => l.append(if (d >= dim) 0 else fdiv(k[d], n) * h + mul(h, ps[fmod(k[d], n)])))
        val w = dist(o, x)
        if (w < -tol) ok_(u, "P30.complete", t, 0, have.contains(code(k))) else u }) } }
  pure def judge(ev: int): V = {
    val f = fieldsOf(EV[ev])
    if (f[0][0] == 0) judgeNew(newV(ev), f) else judgeCut(newV(ev), f) }
  var i: int
  var out: V
  action init = all { i' = 0, out' = newV(0) }
  action step = all { i < EV.length(), i' = i + 1, out' = merge(out, judge(i)) }
}
