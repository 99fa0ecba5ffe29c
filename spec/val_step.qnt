// Trace validation of recorded steps: every event is one step of a real
// solver (pre-state, grid after each phase, post-state); each phase must be a
// transition of the model.  Clause names start with the property they decide.
module val_step {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import kernel.* from "./kernel"
  import mpm.* from "./mpm"
  import sdf.* from "./sdf"
  import verdict.* from "./verdict"
  import dec.* from "./verdict"
  import lg.* from "./lg"

  pure val NGF: int = 8
  pure val NBF: int = 22
  pure val REL: int = ONE / 40000      // 2.5e-5: float32 chains are ~1e-6

  type Hdr = { dim: int, par: Par, ng: int, nb: int, t0: int, t1: int, s0: int, s1: int, p0: int, vf: int, A: List[int], fall: List[int] }
  pure def header(l: List[int]): Hdr = {
    dim: l[0], ng: l[11], nb: l[12], t0: l[13], t1: l[14], s0: l[15], s1: l[16], p0: l[17], vf: l[18], A: l.slice(19, 28), fall: l.slice(28, 31),
    par: { scheme: l[1], dt: l[2], alpha: l[3], dynA: l[4] == 1, smin: l[5], smax: l[6], bmin: l[7], bmax: l[8], cfl: l[9], cutoff: l[10] } }
  // force list: [kind, onGrid, a, b, c, gmask, pmask] each
  pure def forces(l: List[int]): List[Frc] = range(0, l.length() / 7).foldl([], (a, i) => {
    val w = sub(l, i, 7)
    a.append({ kind: w[0], onGrid: w[1] == 1, vec: w.slice(2, 5), gm: w[5], pm: w[6] }) })

  type Bd = { g: int, k: int, reset: bool, store: bool, lin: bool, lam: int, mu: int, sel: bool, pre: List[Pt], post: List[Pt], L: List[List[int]] }
  pure def points(n: int, f: List[List[int]], o: int): List[Pt] = range(0, n).foldl([], (l, i) => l.append({
    x: sub(f[o], i, 3), v: sub(f[o + 1], i, 3), f: sub(f[o + 2], i, 3), m: f[o + 3][i], vol: f[o + 4][i], vol0: f[o + 5][i],
    S: sub(f[o + 6], i, 9), F: sub(f[o + 7], i, 9), Fs: sub(f[o + 8], i, 9), C: sub(f[o + 9], i, 9) }))
  pure def body(f: List[List[int]], o: int): Bd = {
    val m = f[o]
    { g: m[0], k: m[1], reset: m[3] == 1, store: m[4] == 1, lin: m[5] == 1, lam: m[6], mu: m[7], sel: m[8] == 1,
      pre: points(m[2], f, o + 1), post: points(m[2], f, o + 11),
      L: range(0, m[2]).foldl([], (l, i) => l.append(sub(f[o + 21], i, 9))) } }

  type Gd = { g: Grid, ids: List[int], m: List[int], p: List[int], f0: List[int], f1: List[int], pn0: List[int], pn1: List[int], at: int -> int, contact: bool }
  pure def gridD(dim: int, f: List[List[int]], o: int): Gd = {
    val m = f[o]
    { g: { dim: dim, origin: m.slice(0, 3), h: m[3], n: m.slice(4, 4 + dim) }, contact: m[7] == 1,
      ids: f[o + 1], m: f[o + 2], p: f[o + 3], f0: f[o + 4], f1: f[o + 5], pn0: f[o + 6], pn1: f[o + 7],
      at: f[o + 1].indices().fold(Map(), (mp, i) => mp.put(f[o + 1][i], i)) } }

  // sum over points of a vector-valued function
  pure def psum(bs: List[Bd], post: bool, f: (Pt) => List[int]): List[int] =
    bs.foldl(ZV, (a, b) => (if (post) b.post else b.pre).foldl(a, (c, q) => vadd(c, f(q))))

  pure def inDomain(g: Grid, k: int, x: List[int]): bool = {
    val s = width(k)
    forallIn(g.dim, d => { val b = base(g, x, d) firstNode(k, b) >= 0 and firstNode(k, b) + s <= g.n[d] }) }

  // rigid objects: before and after the step
  type Obj = { a: Sdf, b: Sdf }
  pure def objects(f: List[List[int]], o: int): List[Obj] =
    range(0, f[o][0]).foldl((o + 1, []), (acc, k) => {
      val at_ = acc._1
      val n = f[at_][2]
      val base_ = { dim: f[at_][0], comp: f[at_][1] == 1, rm: IM, fr: f[at_ + 2 + n],
        shapes: range(0, n).foldl([], (l, i) => l.append(shape(f[at_ + 1][i], f[at_ + 2 + i]))), com: ZV, rot: [0], vel: ZV, ang: ZV }
      val s = at_ + 3 + n
      (s + 8, acc._2.append({ a: turned({ ...base_, com: f[s], rot: f[s + 1], vel: f[s + 2], ang: f[s + 3] }),
        b: turned({ ...base_, com: f[s + 4], rot: f[s + 5], vel: f[s + 6], ang: f[s + 7] }) })) })._2
  pure def colliders(l: List[int]): List[Col] = range(0, (l.length() - 1) / 3).foldl([], (a, i) => a.append({ o: l[1 + 3 * i], fr: l[2 + 3 * i], gm: l[3 + 3 * i] }))

  pure def judgeObject(v: V, dt: int, o: Obj, k: int): V = {
    val m = move(o.a, dt)
    val still = not(o.a.comp) and o.a.shapes[0].k == DOMAIN
    val a = mul(vmaxabs(o.a.ang) * 2, dt)
    val tr_ = ONE / 2^18 + mul(mul(a, a), a) / 10 + (if (o.a.dim == 2) abs(o.a.rot[0]) / 2^20 else 0)
    val v1 = list_(v, if (still) "P14.domain" else "P14.centre", k, o.b.com, m.com, (ONE + vmaxabs(o.a.com)) / 2^19)
    val v2 = list_(v1, if (still) "P14.domain" else "P14.orientation", k, o.b.rot, m.rot, tr_)
    list_(v2, "P14.velocities", k, o.b.vel.concat(o.b.ang), o.a.vel.concat(o.a.ang), 0) }

  // contact at the nodes of one grid: momentum before and after
  pure def judgeContact(v0: V, h: Hdr, gd: Gd, gi: int, os: List[Sdf], all_: List[Col]): V = {
    val cols = all_.select(c => bit(c.gm, gi))
    range(0, gd.ids.length()).foldl(v0, (v, i) => {
      val m = gd.m[i]
      val x = nodePos(gd.g, gd.ids[i])
      val q0 = sub(gd.pn0, i, 3)
      val q1 = sub(gd.pn1, i, 3)
      if (m <= ONE / 2^33) list_(v, "P13.massless", gd.ids[i], q1, q0, vmaxabs(q0) + 2)
      else {
        val far = cols.foldl(true, (b, c) => b and dist(os[c.o], x) > gd.g.h + ONE / 2^14)
        if (far) list_(v, "P13.untouched", gd.ids[i], q1, q0, vmaxabs(q0) / 2^20 + 4)
        else if (not(cols.foldl(true, (b, c) => b and clear(os[c.o], gd.g.h, x, ONE / 2^14)))) v
        else {
          val a = vdivs(q0, m)
          val b = vdivs(q1, m)
          val us = cols.foldl(0, (s, c) => maxi(s, vmaxabs(wallVel(os[c.o], x))))
          val fmax = cols.foldl(0, (s, c) => maxi(s, c.fr))
          val tol = mul(mul(vmaxabs(a) + us, ONE + 2 * fmax), ONE / 1500) + div(4, m) + 64
          val v1 = list_(v, "P13.velocity", gd.ids[i], b, collideAll(os, cols, gi, gd.g.h, x, a), tol)
          if (cols.length() != 1 or dist(os[cols[0].o], x) > gd.g.h) v1 else {
            val o = os[cols[0].o]
            val g = grad(o, x, gd.g.h / 2^14)
            val gn = norm(g)
            val n = vdivs(g, gn)
            val u = wallVel(o, x)
            val mu = mul(cols[0].fr, friction(o, x))
            val push = dot(vsub(b, a), n)
            val ta = vsub(vsub(a, u), vscale(dot(vsub(a, u), n), n))
            val tb = vsub(vsub(b, u), vscale(dot(vsub(b, u), n), n))
            val w1 = ge_(v1, "P13.nopenetration", gd.ids[i], 0, dot(vsub(b, u), n), 0, tol)
            val w2 = ge_(w1, "P13.noadhesion", gd.ids[i], 0, push, 0, tol)
            val w3 = le_(w2, "P13.coulomb", gd.ids[i], 0, norm(vsub(tb, ta)), mul(mu, maxi(push, 0)), tol)
            val w4 = ge_(w3, "P13.noreversal", gd.ids[i], 0, dot(tb, ta), 0, mul(tol, vmaxabs(a) + us))
            if (dot(vsub(a, u), n) < tol) w4 else list_(w4, "P13.separating", gd.ids[i], b, a, tol)
          } } } })
  }

  pure def judgeGrid(v0: V, h: Hdr, fs: List[Frc], bs: List[Bd], gd: Gd, gi: int): V = {
    val mine = range(0, bs.length()).foldl([], (l, i) => if (bs[i].g == gi and bs[i].sel) l.append(i) else l)
    val acc = mine.foldl(acc0(gd.g), (a, i) => bs[i].pre.foldl(a, (aa, q) =>
      scatter(aa, h.par.scheme, gd.g, q.with("f", preForce(fs, h.p0 + i, q)), interactions(bs[i].k, gd.g, q.x))))
    val tm = mul(acc.sm, REL) + 16
    val tp = mul(acc.sp, REL) + 16
    val tf = mul(acc.sf, REL) + 16
    val logged = gd.ids.indices().map(i => gd.ids[i])
    // nodes the model touches but the implementation left at zero
    val v1 = acc.n.keys().fold(v0, (v, id) => if (logged.contains(id)) v else {
      val w = acc.n.get(id)
      if (near(w.m, 0, tm) and vclose(w.p, ZV, tp) and vclose(w.f, ZV, tf)) v
      else flag(hit(v, "P03.node"), "P03.node", gi, id, 0, w.m, tm) })
    val v2 = range(0, gd.ids.length()).foldl(v1, (v, i) => {
      val id = gd.ids[i]
      val w = if (acc.n.keys().contains(id)) acc.n.get(id) else ND0
      val p = sub(gd.p, i, 3)
      val f0 = sub(gd.f0, i, 3)
      val f1 = sub(gd.f1, i, 3)
      val want1 = gridForce(fs, gi, gd.m[i], p, f0)
      // the sign of a vanishing momentum is not determined by the log
      val soft = fs.foldl(false, (b, fr) => b or fr.kind == 2) and range(0, h.dim).foldl(false, (b, d) => b or abs(p[d]) < 2^12)
      val u1 = near_(v, "P03.mass", gi, id, gd.m[i], w.m, tm)
      val u2 = list_(u1, "P03.momentum", id, p, w.p, tp)
      val u3 = list_(u2, "P03.force", id, f0, w.f, tf)
      val u4 = if (soft) u3 else list_(u3, "P11.gridforce", id, f1, want1, mul(maxi(vmaxabs(f0), vmaxabs(want1)), REL) + 64 + 16 * (1 + fs.foldl(0, (a, fr) => a + vmaxabs(fr.vec)) / ONE))
      val u5 = list_(u4, "P04.integrate", id, sub(gd.pn0, i, 3), integrate(p, f1, h.par.dt), mul(maxi(acc.sp, mul(h.par.dt, maxi(acc.sf, vmaxabs(f1)))), REL) + 16)
      if (gd.contact) u5 else list_(u5, "P04.nocontact", id, sub(gd.pn1, i, 3), sub(gd.pn0, i, 3), mul(vmaxabs(sub(gd.pn0, i, 3)), ONE / 2^20) + 16)
    })
    // sums over the grid: exactly the mass and momentum of the points whose stencil lies inside
    val inside = mine.foldl(true, (b, i) => bs[i].pre.foldl(b, (c, q) => c and inDomain(gd.g, bs[i].k, q.x)))
    val mb = mine.foldl([], (l, i) => l.append(bs[i]))
    if (not(inside)) v2 else {
      val sm = gd.m.foldl(0, (a, x) => a + x)
      val wm = mb.foldl(0, (a, b) => b.pre.foldl(a, (c, q) => c + q.m))
      val sp = v3(d => range(0, gd.ids.length()).foldl(0, (a, i) => a + gd.p[3 * i + d]))
      val wp = psum(mb, false, q => vscale(q.m, q.v))
      val pscale = mb.foldl(0, (a, b) => b.pre.foldl(a, (c, q) => c + mul(q.m, vmaxabs(q.v) + mul(mmaxabs(q.C), gd.g.h))))
      val sf = v3(d => range(0, gd.ids.length()).foldl(0, (a, i) => a + gd.f0[3 * i + d]))
      val wf = mine.foldl(ZV, (a, i) => bs[i].pre.foldl(a, (c, q) => vadd(c, preForce(fs, h.p0 + i, q))))
      val a1 = near_(v2, "P03.totalmass", gi, 0, sm, wm, mul(wm, REL) + 16)
      val a2 = list_(a1, "P03.totalmomentum", gi, sp, wp, mul(pscale, REL) + 16)
      list_(a2, "P03.internalforcesum", gi, sf, wf, mul(maxi(acc.sf, vmaxabs(wf)), REL * 4) + 16)
    }
  }

  pure def judgeBody(v0: V, h: Hdr, fs: List[Frc], b: Bd, bi: int, gd: Gd): V = {
    val p = h.par
    def vel(id, arr) = if (gd.at.keys().contains(id)) { val i = gd.at.get(id) nodeVel(gd.m[i], sub(arr, i, 3), p.cutoff) } else ZV
    if (not(b.sel)) range(0, b.pre.length()).foldl(v0, (v, i) =>
      ok_(v, "P12.frozen", bi, i, b.post[i].with("f", ZV) == b.pre[i].with("f", ZV)))
    else range(0, b.pre.length()).foldl(v0, (v, i) => {
      val q = b.pre[i]
      val r = b.post[i]
      val its = interactions(b.k, gd.g, q.x)
      val t = gather(gd.g, its, id => if (gd.at.keys().contains(id)) gd.m[gd.at.get(id)] else 0,
        id => vel(id, gd.p), id => vel(id, gd.pn1))
      val o = g2p(p, gd.g, b.k, q, t)
      val pi = bi * 100 + i
      val sv = maxi(t.sv, vmaxabs(q.v))
      val tv = mul(sv, REL) + 16
      // speed limit: allow either side exactly at the limit
      val tx = mul(gd.g.h, ONE / 50000) + mul(p.dt, tv) + mul(maxi(vmaxabs(q.x), abs(gd.g.origin[0])), ONE / 2^21)
      val sL = maxi(t.sg, if (p.scheme == APIC) div(sv, gd.g.h) * 4 else 0)
      val tL = mul(sL, REL * 2) + 16
      val FF = maxi(mmaxabs(q.F), ONE)
      val tF = mul(mul(p.dt, tL) * 3, FF) + mul(FF, ONE / 2^20)
      val reset = if (not(b.reset)) o.F else if (h.dim == 2) { val s = sqrt(o.J) [s, 0, 0, 0, s, 0, 0, 0, ONE] } else diag3(cbrt(o.J))
      // beta jumps at J = 1
      val jumpy = p.scheme != USL and p.bmin != p.bmax and near(o.J, ONE, tF * 4)
      val flip = vsub(q.v, t.v0)
      // dynamic alpha: mass support at the edge of its ramp is continuous, nothing to exclude
      val sv2 = if (p.dynA) tv * 4 else tv
      val u1 = list_(v, if (p.scheme == USL) "P08.velocity" else "P08.velocity", pi, r.v, o.v, sv2 + mul(vmaxabs(o.v), REL))
      // where det F is 1 within rounding either blending factor is right
      val ox = if (not(jumpy)) o.x else {
        val other = vadd(q.x, vscale(p.dt, vadd(t.v1, vscale(mul(p.alpha, if (o.J < ONE) p.bmax else p.bmin), flip))))
        if (vclose(r.x, other, tx)) other else o.x }
      val u2 = list_(u1, "P08.position", pi, r.x, ox, tx)
      val u3 = list_(u2, "P06.L", pi, b.L[i], o.L, tL)
      val u4 = list_(u3, "P07.F", pi, r.F, reset, tF * 2)
      val u5 = near_(u4, "P07.volume", pi, 0, r.vol, o.vol, mul(q.vol0, tF * 6) + mul(abs(o.vol), ONE / 2^18) + 16)
      val u6 = if (not(b.store)) u5 else list_(u5, "P07.history", pi, r.Fs, fNext(o.L, p.dt, q.Fs), tF * 2 + mul(mmaxabs(q.Fs), ONE / 2^19))
      val u7 = if (p.scheme == USL) u6 else list_(u6, "P06.affine", pi, r.C, o.C, tL)
      val u8 = ok_(u7, "P07.constants", pi, 0, r.m == q.m and r.vol0 == q.vol0)
      val u9 = list_(u8, "P11.pointforce", pi, r.f, preForce(fs, h.p0 + bi, q), mul(vmaxabs(preForce(fs, h.p0 + bi, q)), REL) + 64)
      val ua = if (h.dim == 2) ok_(u9, "P07.planestrain", pi, 0, b.L[i][2] == 0 and b.L[i][5] == 0 and b.L[i][6] == 0 and b.L[i][7] == 0 and b.L[i][8] == 0 and r.F[8] == ONE and r.F[2] == 0 and r.F[5] == 0 and r.F[6] == 0 and r.F[7] == 0) else u9
      val ub = ge_(ua, "P07.density", pi, 0, mul(r.vol, q.vol0), -2^60, 0)
      // determinant and volume agree whatever happened to F
      val uc = near_(ub, "P07.vol_is_detF", pi, 0, r.vol, mul(det(r.F), r.vol0), mul(r.vol0, ONE / 50000) + 16)
      // linear elastic law: the stress of this very step
      val ud = if (not(b.lin)) uc else {
        val d = sym(b.L[i])
        val want = madd(q.S, madd(diag3(mul(b.lam, mul(tr(d), p.dt))), mscale(2 * b.mu, mscale(p.dt, d))))
        list_(uc, "P11.stress", pi, r.S, want, mul(maxi(mmaxabs(want), mmaxabs(q.S)), REL) + 64) }
      // theorems of the method on special velocity fields (proved of the model by gen_step)
      val un = div(gd.g.h, p.dt) / 2^13
      val ue = if (h.vf == 1) {
          val w1 = list_(ud, "P05.velocity", pi, r.v, vadd(q.v, vscale(p.dt, h.fall)), un)
          val w2 = list_(w1, "P05.position", pi, r.x, vadd(q.x, vscale(p.dt, vadd(q.v, vscale(p.dt, h.fall)))), mul(p.dt, un) + tx)
          list_(w2, "P05.undeformed", pi, msub(r.F, q.F), ZM, ONE / 2^12)
        } else if (h.vf == 2 and p.scheme != USL and h.s0 == 0) {
          val w1 = list_(ud, "P06.exactgradient", pi, b.L[i], mscale(-ONE, h.A), div(ONE, p.dt) / 2^13)
          val w2 = list_(w1, "P06.exacttransfer", pi, r.C, mscale(-ONE, h.A), div(ONE, p.dt) / 2^13)
          list_(w2, "P06.exactvelocity", pi, r.v, q.v, un)
        } else ud
      if (p.scheme == USL or p.cfl >= 2 * ONE) ue
      else le_(ue, "P08.speedlimit", pi, 0, norm(r.v), div(mul(p.cfl, gd.g.h), p.dt), mul(div(mul(p.cfl, gd.g.h), p.dt), REL))
    })
  }

  // balance over the whole step: d(sum m v) = dt * external force
  pure def judgeBalance(v: V, h: Hdr, fs: List[Frc], all_: List[Bd], gs: List[Gd]): V = {
    val bs = range(0, all_.length()).foldl([], (l, i) => l.append(if (all_[i].sel) all_[i] else { ...all_[i], pre: [], post: [] }))
    val p = h.par
    val clamp = p.scheme != USL and bs.foldl(false, (a, b) => b.post.foldl(a, (c, q) => c or norm(q.v) > mul(mul(p.cfl, ONE * 98 / 100), div(gs[b.g].g.h, p.dt))))
    val inside = bs.foldl(true, (a, b) => b.pre.foldl(a, (c, q) => c and inDomain(gs[b.g].g, b.k, q.x)))
    val contact = gs.foldl(false, (a, g) => a or g.contact)
    val damped = fs.foldl(false, (a, f) => a or f.kind == 2)
    // support scaling weights points differently: only the balance of pure PIC/FLIP is exact
    if (clamp or not(inside) or contact or damped or (p.scheme != USL and p.dynA)) v else {
      val d = vsub(psum(bs, true, q => vscale(q.m, q.v)), psum(bs, false, q => vscale(q.m, q.v)))
      val ext = range(0, bs.length()).foldl(ZV, (a, i) => bs[i].pre.foldl(a, (c, q) =>
        vadd(c, fs.foldl(ZV, (f, fr) => if (fr.kind == 1 and (if (fr.onGrid) bit(fr.gm, bs[i].g) else bit(fr.pm, h.p0 + i))) vadd(f, vscale(mul(q.m, p.dt), fr.vec)) else f))))
      val sc = bs.foldl(0, (a, b) => b.pre.foldl(a, (c, q) => c + mul(q.m, vmaxabs(q.v) + mul(mmaxabs(q.C), gs[b.g].g.h))))
        + gs.foldl(0, (a, g) => a + mul(p.dt, maxabs(g.f0)))
      list_(v, if (fs.length() == 0) "P04.conserved" else "P04.balance", 0, d, ext, mul(sc + vmaxabs(ext), REL * 2) + 2^20)
    }
  }

  pure def judge(ev: int): V = {
    val f = fieldsOf(EV[ev])
    val h = header(f[0])
    val fs = forces(f[1])
    val gs = range(0, h.ng).foldl([], (l, g) => l.append(gridD(h.dim, f, 2 + NGF * g)))
    val bs = range(0, h.nb).foldl([], (l, b) => l.append(body(f, 2 + NGF * h.ng + NBF * b)))
    val okPost = bs.foldl(true, (a, b) => b.post.foldl(a, (c, q) => c and allFinite(q.x) and allFinite(q.v) and finite(q.vol) and (q.vol <= 0 or (allFinite(q.F) and allFinite(q.S)))))   // an inverted element has no meaningful F
    val v0 = ok_(newV(ev), "ANY.finite", 0, 0, okPost)
    val v1 = ok_(v0, "P28.step", 0, 0, h.s1 == h.s0 + 1)
    val v2 = near_(v1, "P28.time", 0, 0, h.t1, h.t0 + h.par.dt, mul(abs(h.t1) + h.par.dt, ONE / 2^21))
    val v3_ = range(0, h.ng).foldl(v2, (v, g) => judgeGrid(v, h, fs, bs, gs[g], g))
    val v4 = range(0, h.nb).foldl(v3_, (v, b) => judgeBody(v, h, fs, bs[b], b, gs[bs[b].g]))
    val oo = 2 + NGF * h.ng + NBF * h.nb
    val objs = objects(f, oo)
    val os = objs.foldl([], (l, o) => l.append(o.b))
    val cols = colliders(f[oo])
    val v5 = range(0, h.ng).foldl(v4, (v, g) => if (not(gs[g].contact)) v else judgeContact(v, h, gs[g], g, os, cols))
    val v6 = objs.indices().fold(v5, (v, k) => judgeObject(v, h.par.dt, objs[k], k))
    // bystanders: digests before and after
    val by = f[f.length() - 1]
    val v7 = range(0, by.length() / 2).foldl(v6, (v, q) => ok_(v, "P12.bystanders", 0, q, by[q] == by[by.length() / 2 + q]))
    judgeBalance(v7, h, fs, bs, gs)
  }

  var i: int
  var out: V
  action init = all { i' = 0, out' = newV(0) }
  action step = all { i < EV.length(), i' = i + 1, out' = merge(out, judge(i)) }
}
