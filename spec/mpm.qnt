// The MPM step as a transition relation, phase by phase, in the order of
// USLSolver.__call__:  P2G -> grid forces -> integrate -> contact -> G2P.
// Sign convention of the code: compression positive, L = -grad v,
// F' = (I - L dt) F, internal nodal force = + V sigma grad N.
module mpm {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import kernel.* from "./kernel"

  pure val USL: int = 0
  pure val MLS: int = 1    // usl_aflip, use_mls_update
  pure val APIC: int = 2   // usl_aflip, classic affine matrix

  type Pt = { x: List[int], v: List[int], f: List[int], m: int, vol: int, vol0: int,
              S: List[int], F: List[int], Fs: List[int], C: List[int] }
  type Cpl = { b: int, g: int, k: int, c: int }       // coupling: body, grid, kernel, law
  type Par = { scheme: int, dt: int, alpha: int, dynA: bool, smin: int, smax: int,
               bmin: int, bmax: int, cfl: int, cutoff: int }

  // ---- P2G --------------------------------------------------------------
  type Nd = { m: int, p: List[int], f: List[int] }
  pure val ND0: Nd = { m: 0, p: ZV, f: ZV }

  // contribution of particle q to one node
  pure def contrib(s: int, dim: int, h: int, q: Pt, it: Intr): Nd = {
    val wm = mul(it.w, q.m)
    // x_node - x_p ; rel = (x_p - x_node)/h
    val d = [-mul(it.r[0], h), -mul(it.r[1], h), if (dim == 3) -mul(it.r[2], h) else 0]
    val va = if (s == USL) q.v else vsub(q.v, mv(q.C, d))
    val fi = vscale(q.vol, mv(q.S, it.g))
    { m: wm,
      p: [mul(wm, va[0]), mul(wm, va[1]), if (dim == 3) mul(wm, va[2]) else 0],
      f: [fi[0] + mul(it.w, q.f[0]), fi[1] + mul(it.w, q.f[1]), if (dim == 3) fi[2] + mul(it.w, q.f[2]) else 0] }
  }
  type Acc = { n: int -> Nd, sm: int, sp: int, sf: int }
  pure def acc0(g: Grid): Acc = { n: 0.to(numNodes(g) - 1).mapBy(i => ND0), sm: 0, sp: 0, sf: 0 }
  // scatter one particle; its = its interactions
  pure def scatter(a: Acc, s: int, g: Grid, q: Pt, its: List[Intr]): Acc =
    its.foldl(a, (acc, it) =>
      if (it.valid and it.w + abs(it.g[0]) + abs(it.g[1]) + abs(it.g[2]) != 0) {
        val c = contrib(s, g.dim, g.h, q, it)
        { n: acc.n.setBy(it.node, o => { m: o.m + c.m, p: vadd(o.p, c.p), f: vadd(o.f, c.f) }),
          sm: maxi(acc.sm, c.m), sp: maxi(acc.sp, vmaxabs(c.p)), sf: maxi(acc.sf, vmaxabs(c.f)) }
      } else acc)

  // ---- grid forces ------------------------------------------------------
  pure def gravityOnGrid(m: int, f: List[int], gr: List[int]): List[int] = vadd(f, vscale(m, gr))
  // Cundall damping: -alpha |f| sign(v)
  pure def cundall(f: List[int], v: List[int], al: int): List[int] =
    v3(i => f[i] - sgn(v[i]) * mul(al, abs(f[i])))
  pure def integrate(p: List[int], f: List[int], dt: int): List[int] = vadd(p, vscale(dt, f))

  // ---- external forces: an ordered registry ------------------------------
  // kind 1 gravity (vec = acceleration), 2 Cundall damping (vec[0] = factor);
  // gm / pm: bit masks of the grids / bodies it is applied to
  type Frc = { kind: int, onGrid: bool, vec: List[int], gm: int, pm: int }
  pure def bit(m: int, i: int): bool = (m / 2^i) % 2 == 1
  pure def preForce(fs: List[Frc], bi: int, q: Pt): List[int] = fs.foldl(ZV, (f, fr) =>
    if (fr.onGrid or not(bit(fr.pm, bi))) f
    else if (fr.kind == 1) vadd(f, vscale(q.m, fr.vec))
    else cundall(f, q.v, fr.vec[0]))
  pure def gridForce(fs: List[Frc], gi: int, m: int, p: List[int], f0: List[int]): List[int] = fs.foldl(f0, (f, fr) =>
    if (not(fr.onGrid) or not(bit(fr.gm, gi))) f
    else if (fr.kind == 1) gravityOnGrid(m, f, fr.vec) else cundall(f, p, fr.vec[0]))

  // ---- G2P --------------------------------------------------------------
  // velocity of a node given mass and momentum
  pure def nodeVel(m: int, p: List[int], cutoff: int): List[int] =
    if (m > cutoff) v3(i => div(p[i], m)) else ZV
  type Gth = { v0: List[int], v1: List[int], dv: List[int], gradv: List[int], B: List[int], sup: int, sv: int, sg: int }
  pure val GTH0: Gth = { v0: ZV, v1: ZV, dv: ZV, gradv: ZM, B: ZM, sup: 0, sv: 0, sg: 0 }
  // gather from the grid: nm(node) mass, n0/n1 old and new nodal velocity
  pure def gather(g: Grid, its: List[Intr], nm: (int) => int, n0: (int) => List[int], n1: (int) => List[int]): Gth =
    its.foldl(GTH0, (a, it) => if (not(it.valid)) a else {
      val u0 = n0(it.node)
      val u1 = n1(it.node)
      val d = [-mul(it.r[0], g.h), -mul(it.r[1], g.h), if (g.dim == 3) -mul(it.r[2], g.h) else 0]
      val w1 = vscale(it.w, u1)
      { v0: vadd(a.v0, vscale(it.w, u0)), v1: vadd(a.v1, w1), dv: vadd(a.dv, vscale(it.w, vsub(u1, u0))),
        gradv: madd(a.gradv, outer(u1, it.g)), B: madd(a.B, outer(w1, d)),
        sup: a.sup + mul(it.w, nm(it.node)),
        sv: maxi(a.sv, maxi(vmaxabs(u0), vmaxabs(u1))),
        sg: maxi(a.sg, mul(maxi(vmaxabs(u0), vmaxabs(u1)), maxi(abs(it.g[0]), maxi(abs(it.g[1]), abs(it.g[2]))))) }
    })

  type Out = { x: List[int], v: List[int], L: List[int], C: List[int], F: List[int], Fs: List[int], vol: int, J: int }
  pure def plane(dim: int, L: List[int]): List[int] = if (dim == 2) L.replaceAt(8, 0) else L
  pure def fNext(L: List[int], dt: int, F: List[int]): List[int] = mm(msub(IM, mscale(dt, L)), F)

  // support-dependent FLIP fraction
  pure def dynAlpha(p: Par, sup: int, m: int): int =
    if (not(p.dynA)) p.alpha
    else mul(p.alpha, clampi(div(div(sup, m) - p.smin, p.smax - p.smin), 0, ONE))
  pure def clampSpeed(v: List[int], vmax: int): List[int] = {
    val s = norm(v)
    if (s <= vmax) v else vscale(div(vmax, s), v)
  }
  // classic APIC: B D^-1 with D = c h^2 (c = 1/4 quadratic, 1/3 cubic)
  pure def apicL(g: Grid, k: int, B: List[int]): List[int] = {
    val c = mul(if (k == CUBIC) ONE / 3 else ONE / 4, sq(g.h))
    mdivs(B, -c)
  }
  pure def g2p(p: Par, g: Grid, k: int, q: Pt, t: Gth): Out = {
    val Lraw = if (p.scheme == APIC) apicL(g, k, t.B) else mscale(-ONE, t.gradv)
    val L = plane(g.dim, Lraw)
    val F1 = fNext(L, p.dt, q.F)
    val F = if (g.dim == 2) F1.replaceAt(8, ONE) else F1
    val J = det(F)
    val flip = vsub(q.v, t.v0)
    val v = if (p.scheme == USL)
        vadd(vscale(ONE - p.alpha, t.v1), vscale(p.alpha, vadd(q.v, t.dv)))
      else
        clampSpeed(vadd(t.v1, vscale(dynAlpha(p, t.sup, q.m), flip)), div(mul(p.cfl, g.h), p.dt))
    val x = if (p.scheme == USL) vadd(q.x, vscale(p.dt, t.v1))
      else vadd(q.x, vscale(p.dt, vadd(t.v1, vscale(mul(p.alpha, if (J < ONE) p.bmin else p.bmax), flip))))
    { x: x, v: v, L: L, C: if (p.scheme == USL) ZM else Lraw, F: F, Fs: fNext(L, p.dt, q.Fs), vol: mul(J, q.vol0), J: J }
  }
}
