// Generator of pairs (simulation, transformed simulation).  The invariant is
// the theorem that the model's step commutes with the transformation; the pair
// is then run in the implementation and compared by val_sym.
module gen_sym {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import kernel.* from "./kernel"
  import mpm.* from "./mpm"
  import scen.* from "./scen"
  import sym.* from "./sym"
  import gen_step(PROFILE=8) as G from "./gen_step"
  const KINDS: Set[int]

  var t: Tr
  var vscn: Scn
  var vb: List[Body]
  var ph: int

  pure val T0: Tr = { kind: 0, vec: ZV, perm: [0, 1, 2], ax: 0, k: 0, keep: 0 }
  // phase 0: base simulation; 1: transformed simulation; 2: both advanced
  action init = all { G::init, t' = T0, ph' = 0,
    vscn' = { dim: 2, h: 0, org: ZV, cells: [], pad: 0, dt: 0, scheme: 0, alpha: 0, dynA: false, smin: 0, smax: 0, bmin: 0, bmax: 0, cfl: 0,
      ng: 1, h1: 0, shift: ZV, bodies: [], forces: [], fsel: 0, bsel: 0, ord: 0, E: 0, nu: 0, law: 0, vf: 0, A: ZM, fall: ZV, objs: [], cols: [], seed: 0 }, vb' = [] }
  pure def onGrid(bs: List[Body], g: int): int = range(0, bs.length()).foldl(0, (a, i) => if (bs[i].g == g) a + 2^i else a)
  action pick = {
    val s = G::scn
    // the support scaling of the blending weighs a point's own mass: not invariant under splitting points
    nondet kind = oneOf(if (G::scn.dynA and KINDS.size() > 1) KINDS.exclude(Set(SPLIT)) else KINDS)
    val u = div(s.h, s.dt) / 8
    val pm = if (s.dim == 2) [1, 0, 2] else if (rnd(s.seed, 501, 2) == 0) [1, 2, 0] else [2, 1, 0]
    val tr = { kind: kind,
      vec: v3(i => if (i >= s.dim) 0 else if (kind == UNITS) [ONE / 2, ONE, 2 * ONE, 3 * ONE][rnd(s.seed, 520 + i, 4)] else if (kind == BOOST) odd(s.seed, 510 + i, 6) * u / 8 else odd(s.seed, 510 + i, 40) * s.h / 8),
      perm: pm, ax: rnd(s.seed, 502, s.dim),
      k: if (kind == ORDER) rnd(s.seed, 503, 15) else if (kind == SPLIT) (1 + rnd(s.seed, 503, 7)) * ONE / 8 else (2 + rnd(s.seed, 503, 6)) * ONE / 2,
      keep: onGrid(s.bodies, if (s.ng == 2) rnd(s.seed, 530, 2) else 0) }
    all { G::scn' = G::scn, G::objs' = G::objs, G::bodies' = G::bodies, G::nstep' = G::nstep, t' = tr, vscn' = onScn(tr, s), vb' = onScn(tr, s).bodies, ph' = 1 }
  }
  action advance = all { G::step, t' = t, vscn' = vscn, vb' = G::modelStep(vscn, [], vb), ph' = 2 }
  action step = if (ph == 0) pick else advance

  pure def sameBody(s: Scn, a: Body, b: Body): bool = a.pts.length() == b.pts.length() and a.pts.indices().forall(i => {
    val q = a.pts[i]
    val r = b.pts[i]
    val hh = maxi(s.h, s.h1)
    val tv = div(hh, s.dt) / 2^14
    vclose(q.x, r.x, hh / 2^14) and vclose(q.v, r.v, tv) and mclose(q.F, r.F, ONE / 2^12) and mclose(q.C, r.C, div(ONE, s.dt) / 2^12) })
  val commutes = ph != 2 or {
    val w = onBodyResults(t, G::scn.dim, mid2Of(G::scn, t.ax), G::scn.dt, G::bodies)
    w.length() == vb.length() and w.indices().forall(i => (t.kind == ISOLATE and not(bit(t.keep, i))) or sameBody(vscn, w[i], vb[i])) }
}
module gen_sym_all { import gen_sym(KINDS=Set(1, 2, 3, 4, 6, 7, 8, 9)).* }
module gen_sym_boost { import gen_sym(KINDS=Set(1)).* }
module gen_sym_frame { import gen_sym(KINDS=Set(2, 3, 6, 7)).* }
module gen_sym_order { import gen_sym(KINDS=Set(4, 8, 9)).* }
module gen_sym_iso { import gen_sym(KINDS=Set(5)).* }
