// Generator: MPM simulations as behaviours.  A state is a whole simulation;
// `advance` is the model's own step (constant stress), on which the theorems
// of the method are checked as invariants.  The same initial states are
// replayed in the implementation, whose steps are then validated by val_step.
module gen_step {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import kernel.* from "./kernel"
  import mpm.* from "./mpm"
  import scen.* from "./scen"
  import sdf.* from "./sdf"
  import sdfgen.newSdf from "./sdfgen"
  import sdfgen.K2 from "./sdfgen"
  import sdfgen.K3 from "./sdfgen"

  const PROFILE: int
  // profiles
  pure val P_GENERAL: int = 0   // everything on
  pure val P_NOEXT: int = 1     // no external force
  pure val P_UNIFORM: int = 2   // one common velocity, no stress
  pure val P_AFFINE: int = 3    // one affine velocity field, no stress
  pure val P_MULTI: int = 4     // several bodies / grids
  pure val P_BLEND: int = 5     // FLIP/PIC blending parameters, fast points
  pure val P_TARGET: int = 6    // forces on subsets of grids/bodies, solver on subsets
  pure val P_SYM: int = 8       // several bodies and grids, gravity only: base of the symmetry pairs
  pure val P_FALL: int = 7      // free fall of a uniformly moving stress-free system

  pure val P_CONTACT: int = 9 // rigid objects and colliders

  var scn: Scn
  var objs: List[Sdf]
  var bodies: List[Body]
  var nstep: int

  // per grid accumulated nodes
  pure def gridOf(s: Scn, g: int): Grid = {
    // grid 1 has its own cell size and origin
    val hg = if (g == 0) s.h else s.h1
    val o = v3(i => if (i < s.dim) s.org[i] - s.pad * hg - g * s.shift[i] else 0)
    { dim: s.dim, origin: o, h: hg, n: s.cells.foldl([], (l, c) => l.append((if (g == 0) c else cells1(s, c)) + 2 * s.pad + 1)) }
  }
  pure def par(s: Scn): Par = { scheme: s.scheme, dt: s.dt, alpha: s.alpha, dynA: s.dynA, smin: s.smin, smax: s.smax,
    bmin: s.bmin, bmax: s.bmax, cfl: s.cfl, cutoff: if (s.scheme == USL) 282 else 28147498 }
  pure def active(s: Scn): List[Frc] = range(0, s.forces.length()).foldl([], (l, i) => if (bit(s.fsel, i)) l.append(s.forces[i]) else l)
  pure def bodyIdx(bs: List[Body], f: (int) => bool): List[int] = range(0, bs.length()).foldl([], (l, i) => if (f(i)) l.append(i) else l)

  // ---- model step --------------------------------------------------------
  // os: the objects after their own motion
  pure def modelStep(s: Scn, os: List[Sdf], bs: List[Body]): List[Body] = {
    val p = par(s)
    range(0, s.ng).foldl(bs, (bl, gi) => {
      val g = gridOf(s, gi)
      val fs = active(s)
      val mine = bodyIdx(bl, i => bl[i].g == gi and bit(s.bsel, i))
      val acc = mine.foldl(acc0(g), (a, i) => bl[i].pts.foldl(a, (aa, q) =>
        scatter(aa, s.scheme, g, q.with("f", preForce(fs, i, q)), interactions(bl[i].k, g, q.x))))
      val fin = acc.n.keys().fold(Map(), (mp, id) => {
        val nd = acc.n.get(id)
        if (nd.m == 0) mp else {
          val p0 = integrate(nd.p, gridForce(fs, gi, nd.m, nd.p, nd.f), s.dt)
          val v0 = vdivs(p0, nd.m)
          val p1 = if (s.cols.length() == 0) p0 else vscale(nd.m, collideAll(os, s.cols, gi, g.h, nodePos(g, id), v0))
          mp.put(id, { m: nd.m, a: nodeVel(nd.m, nd.p, p.cutoff), b: nodeVel(nd.m, p1, p.cutoff) })
        } })
      range(0, bl.length()).foldl([], (l, i) => { val b = bl[i] l.append(if (b.g != gi or not(bit(s.bsel, i))) b else b.with("pts", b.pts.foldl([], (pl, q) => {
        val its = interactions(b.k, g, q.x).select(it => it.valid and fin.keys().contains(it.node))
        val o = g2p(p, g, b.k, q, gather(g, its, n => fin.get(n).m, n => fin.get(n).a, n => fin.get(n).b))
        pl.append({ x: o.x, v: o.v, f: ZV, m: q.m, vol: o.vol, vol0: q.vol0, S: q.S, F: o.F, Fs: o.Fs, C: o.C })
      }))) })
    })
  }

  pure def totalMass(bs: List[Body]): int = bs.foldl(0, (a, b) => b.pts.foldl(a, (c, q) => c + q.m))
  pure def momentum(bs: List[Body]): List[int] = bs.foldl(ZV, (a, b) => b.pts.foldl(a, (c, q) => vadd(c, vscale(q.m, q.v))))

  // a position near the points: a node plus up to 3 / k cells
  pure def nearNode(org: List[int], dim: int, h: int, nc: int, seed: int, so: int, k: int): List[int] =
    v3(a => if (a < dim) org[a] + h * (1 + rnd(seed, 200 + a, nc - 3)) + (if (k > 100) 0 else mul(h, srnd(so, 2 + a, 24) * ONE / 8 / k)) else 0)
  action init = {
    nondet seed = oneOf(0.to(2^48))
    nondet dim = oneOf(Set(2, 3))
    nondet scheme = oneOf(Set(0, 1, 2))
    nondet k0 = oneOf(Set(1, 2, 3))
    nondet nb = oneOf(if (PROFILE == 4 or PROFILE == 6 or PROFILE == 8) Set(2, 3) else Set(1, 2))
    nondet ng = oneOf(if (PROFILE == 4 or PROFILE == 9) Set(1, 2) else if (PROFILE == 6 or PROFILE == 8) Set(2) else Set(1))
    nondet hs = oneOf(0.to(5))
    nondet al = oneOf(0.to(4))
    nondet dyn = oneOf(if (PROFILE == 5 or PROFILE == 8) Set(true, false) else Set(false))
    val h = HS[hs]
    val dt = DTS[rnd(seed, 1, 4)]
    val org = v3(i => if (i < dim) srnd(seed, 2 + i, 20) * h / 4 else 0)
    val nc = if (dim == 2) 6 + rnd(seed, 5, 3) else 4
    val cells = range(0, dim).foldl([], (l, i) => l.append(nc + rnd(seed, 6 + i, 2)))
    val vf = if (PROFILE == 2 or PROFILE == 7) 1 else if (PROFILE == 3) 2 else 0
    val smooth = PROFILE == 2 or PROFILE == 3 or PROFILE == 7
    val npts = if (dim == 2) 3 + rnd(seed, 9, 3) else 2 + rnd(seed, 9, 2)
    val ctr = vadd(org, [(nc / 2) * h, (nc / 2) * h, if (dim == 3) (nc / 2) * h else 0])
    val bl = range(0, nb).foldl([], (l, b) => {
      // classic APIC is defined for quadratic and cubic kernels
      val k = if (scheme == 2) 2 + ((k0 + b) % 2) else 1 + ((k0 + b) % 3)
      val pts = range(0, npts - (if (b > 0) 1 else 0)).foldl([], (pl, i) => {
        val own = 1 + b * 8 + i
        // clustered around a corner point so that points share nodes
        val cc = v3(a => 32 * (1 + rnd(seed, 200 + a, nc - 3)) + 1 + 2 * rnd(seed, own * 97 + 20 + a, 40))
        pl.append(mkPt(seed, own, dim, h, dt, org, cc, vf, not(smooth), ctr, not(smooth), scheme)) })
      l.append({ g: if (ng == 2) b % 2 else 0, k: k, law: b, store: rnd(seed, 300 + b, 2) == 1, pts: pts }) })
    val ext = PROFILE == 0 or PROFILE == 4 or PROFILE == 8 or PROFILE == 9
    // external forces
    val nf = if (PROFILE == 6) 3 + rnd(seed, 400, 2) else if (ext) rnd(seed, 400, 4) else if (PROFILE == 7) 1 + rnd(seed, 400, 2) else 0
    val forces = range(0, nf).foldl([], (l, i) => {
      val kind = if (PROFILE == 7 or PROFILE == 8) 1 else if (rnd(seed, 410 + i, 3) < 2) 1 else 2
      val gr = v3(a => if (a < dim) mul(odd(seed, 420 + 3 * i + a, 5) * ONE / 64, div(h, mul(dt, dt))) else 0)
      l.append({ kind: kind, onGrid: rnd(seed, 440 + i, 2) == 0, vec: if (kind == 1) gr else [rnd(seed, 450 + i, 4) * ONE / 4, 0, 0],
        gm: if (PROFILE == 6 and rnd(seed, 461 + i, 2) == 0) rnd(seed, 460 + i, 2^ng) else 2^ng - 1, pm: if (PROFILE == 6 and rnd(seed, 471 + i, 2) == 0) rnd(seed, 470 + i, 2^nb) else 2^nb - 1 }) })
    // a law stiffness that is stable for these masses: E ~ m h^2 / (dt^2 vol) / 50
    val q0 = bl[0].pts[0]
    val E = div(mul(q0.m, div(mul(h, h), mul(dt, dt))), q0.vol) / 64
    // objects near the points; velocities of a fraction of a cell per step
    val nobj = if (PROFILE == 9) 1 + rnd(seed, 500, 2) else 0
    val os = range(0, nobj).foldl([], (l, j) => {
      val so = rnd(seed, 510 + j, 2^40)
      val kk = rnd(so, 1, 9)
      val o = newSdf(dim, h, so, if (kk == 8) BOX else if (dim == 2) K2[kk] else K3[kk], kk == 8)
      val u = h * ONE / dt
      val com = nearNode(org, dim, h, nc, seed, so, if (kk == 2 or kk == 7) 8 else 1)
      // sometimes exactly on a node
      val com1 = if (rnd(so, 5, 3) > 0) com else nearNode(org, dim, h, nc, seed, so, 1000)
      val rest = rnd(so, 6, 4) == 0
      val vel = vscale(if (rest) 0 else ONE, [odd(so, 7, 8) * u / 128, odd(so, 8, 8) * u / 128, if (dim == 3) odd(so, 9, 8) * u / 128 else 0])
      val ang = if (rest) ZV else if (dim == 2) [odd(so, 47, 8) * ONE / 16 * ONE / dt / 16, 0, 0] else [odd(so, 47, 8) * ONE / 16 * ONE / dt / 32, odd(so, 48, 8) * ONE / 16 * ONE / dt / 32, odd(so, 49, 8) * ONE / 16 * ONE / dt / 32]
      val sh = if (o.comp or o.shapes[0].k != DOMAIN) o.shapes else [shape(DOMAIN, {
        def e(a) = h * (2 + rnd(so, 60 + a, 4))
        [com[0] - e(0), com[1] - e(1), com[2] - e(2), com[0] + e(0) / 2, com[1] + e(1) / 2, com[2] + e(2) / 2].concat(o.shapes[0].p.slice(6, 6 + 2 * dim)) })]
      l.append({ ...o, com: com1, vel: vel, ang: ang, shapes: sh }) })
    val cols = range(0, if (PROFILE == 9) 1 + rnd(seed, 501, 2) else 0).foldl([], (l, j) =>
      l.append({ o: if (rnd(seed, 530 + j, 3) == 0) rnd(seed, 540 + j, nobj) else nobj - 1, fr: rnd(seed, 550 + j, 9) * ONE / 8, gm: 1 + rnd(seed, 560 + j, 2^ng - 1) }))
    all {
      objs' = os,
      scn' = { objs: os, cols: cols, dim: dim, h: h, org: org, cells: cells, pad: 3, dt: dt, scheme: scheme,
        alpha: ALPHAS[al], dynA: dyn, smin: ONE + rnd(seed, 12, 20) * ONE / 32, smax: 2 * ONE + rnd(seed, 13, 64) * ONE / 32,
        bmin: rnd(seed, 14, 3) * ONE / 4, bmax: if (PROFILE == 8) rnd(seed, 14, 3) * ONE / 4 else rnd(seed, 15, 5) * ONE / 4,
        cfl: if (PROFILE == 5 and rnd(seed, 16, 2) == 0) ONE / 16 else 4 * ONE,
        ng: ng, h1: [h, h / 2, 2 * h, 3 * h / 2][rnd(seed, 11, 4)], shift: v3(i => if (i < dim) h * (1 + rnd(seed, 17 + i, 3)) / 1 else 0), bodies: bl,
        forces: forces, fsel: if (PROFILE == 6 and rnd(seed, 479, 3) == 0) rnd(seed, 480, 2^nf) else 2^nf - 1, bsel: if (PROFILE == 6 and rnd(seed, 481, 2) == 0) 1 + rnd(seed, 482, 2^nb - 1) else 2^nb - 1,
        ord: rnd(seed, 483, 16), E: E, nu: rnd(seed, 27, 4) * ONE / 10, law: rnd(seed, 28, 2),
        vf: vf, A: if (vf == 2) affineA(seed, dim, h * ONE / dt / 4) else ZM,
        fall: if (PROFILE == 7) forces.foldl(ZV, (a, f) => vadd(a, f.vec)) else ZV, seed: seed },
      bodies' = bl,
      nstep' = 0,
    }
  }
  action step = {
    val os = objs.foldl([], (l, o) => l.append(move(o, scn.dt)))
    all { scn' = scn, objs' = os, bodies' = modelStep(scn, os, bodies), nstep' = nstep + 1 } }

  // ---- theorems of the model --------------------------------------------
  pure def scaleP(s: Scn): int = mul(totalMass(s.bodies), s.h * ONE / s.dt)
  val massConst = totalMass(bodies) == totalMass(scn.bodies)
  // each step changes the total momentum by exactly the gravity impulse on the bodies it
  // targets (no damping, support scaling or speed limit); zero without forces
  pure def impulse(s: Scn): List[int] = s.bodies.indices().fold(ZV, (a, i) => if (not(bit(s.bsel, i))) a else active(s).foldl(a, (c, fr) =>
    if (if (fr.onGrid) bit(fr.gm, s.bodies[i].g) else bit(fr.pm, i)) vadd(c, vscale(mul(totalMass([s.bodies[i]]), s.dt), fr.vec)) else c))
  val exactBalance = scn.cols.length() == 0 and not(scn.dynA) and scn.cfl >= ONE and not(range(0, scn.forces.length()).foldl(false, (b, i) => b or scn.forces[i].kind == 2))
  val momentumBalance = not(exactBalance) or
    vclose(momentum(bodies), vadd(momentum(scn.bodies), vscale(nstep * ONE, impulse(scn))), scaleP(scn) / 2^18)
  // profile 7: free fall, every point accelerates alike
  val fall = range(0, scn.forces.length()).foldl(ZV, (a, i) => vadd(a, scn.forces[i].vec))
  val freeFall = PROFILE != 7 or bodies.indices().forall(b => bodies[b].pts.indices().forall(i => {
    val q = bodies[b].pts[i]
    vclose(q.v, vadd(scn.bodies[b].pts[i].v, vscale(nstep * scn.dt, fall)), scn.h * ONE / scn.dt / 2^13) and mclose(q.F, IM, ONE / 2^13) }))
  // an affine velocity field carried by the points is reproduced exactly (affine transfers)
  val affineStays = PROFILE != 3 or scn.scheme == USL or nstep != 1 or bodies.indices().forall(b => bodies[b].pts.indices().forall(i => {
    val q = bodies[b].pts[i]
    val q0 = scn.bodies[b].pts[i]
    val tol = ONE / scn.dt * ONE / 2^13
    vclose(q.v, q0.v, mul(scn.h, tol)) and mclose(q.C, mscale(-ONE, scn.A), tol) and mclose(q.F, mm(madd(IM, mscale(scn.dt, scn.A)), q0.F), ONE / 2^12) }))
  // a body no solver coupling selects, or on a grid nothing acts on, is left alone
  val unselected = bodies.indices().forall(b => bit(scn.bsel, b) or bodies[b] == scn.bodies[b])
  val uniformStays = PROFILE != 2 or bodies.indices().forall(b => bodies[b].pts.indices().forall(i => {
    val q = bodies[b].pts[i]
    val q0 = scn.bodies[b].pts[i]
    vclose(q.v, q0.v, scn.h * ONE / scn.dt / 2^13) and vclose(q.x, vadd(q0.x, vscale(nstep * scn.dt, q0.v)), scn.h / 2^13) and mclose(q.F, IM, ONE / 2^13) }))
  val volIsJ = bodies.indices().forall(b => bodies[b].pts.indices().forall(i => {
    val q = bodies[b].pts[i]
    near(q.vol, mul(det(q.F), q.vol0), ONE / 2^20) }))
  val inv = massConst and momentumBalance and uniformStays and freeFall and affineStays and unselected and volIsJ
}
module gen_step_0 { import gen_step(PROFILE=0).* }
module gen_step_1 { import gen_step(PROFILE=1).* }
module gen_step_2 { import gen_step(PROFILE=2).* }
module gen_step_3 { import gen_step(PROFILE=3).* }
module gen_step_4 { import gen_step(PROFILE=4).* }
module gen_step_5 { import gen_step(PROFILE=5).* }
module gen_step_6 { import gen_step(PROFILE=6).* }
module gen_step_7 { import gen_step(PROFILE=7).* }
module gen_step_8 { import gen_step(PROFILE=8).* }
module gen_step_9 { import gen_step(PROFILE=9).* }
