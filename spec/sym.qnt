// Symmetries of the MPM step: transformations T of simulations under which
// stepping commutes, step(T(s)) = T(step(s)).
module sym {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import kernel.* from "./kernel"
  import mpm.* from "./mpm"
  import scen.* from "./scen"

  pure val BOOST: int = 1      // add a constant velocity
  pure val SHIFT: int = 2      // move everything, grid included
  pure val PERM: int = 3       // rename the axes
  pure val ORDER: int = 4      // register things in another order, points reversed
  pure val ISOLATE: int = 5    // leave out everything on the other grid
  pure val MIRROR: int = 6     // reflect one axis
  pure val UNITS: int = 7      // other units of length vec[0], time vec[1] and mass k
  pure val SPLIT: int = 8      // replace every point by two coincident ones
  pure val TWO: int = 9        // register every other point of the first body as a body of its own with the same law

  // vec: boost or shift; perm: axis permutation; ax: mirrored axis; k: factor or fraction
  type Tr = { kind: int, vec: List[int], perm: List[int], ax: int, k: int, keep: int }

  pure def permV(p: List[int], a: List[int]): List[int] = v3(i => a[p[i]])
  pure def permM(p: List[int], a: List[int]): List[int] = m9((i, j) => at(a, p[i], p[j]))
  pure def mirV(ax: int, a: List[int]): List[int] = v3(i => if (i == ax) -a[i] else a[i])
  pure def mirM(ax: int, a: List[int]): List[int] = m9((i, j) => if ((i == ax) != (j == ax)) -at(a, i, j) else at(a, i, j))
  pure def permL(p: List[int], dim: int, a: List[int]): List[int] = range(0, dim).foldl([], (l, i) => l.append(a[p[i]]))

  pure def vel(t: Tr): int = div(t.vec[0], t.vec[1])
  pure def volu(t: Tr, dim: int): int = mul(t.vec[0], if (dim == 2) t.vec[0] else sq(t.vec[0]))
  pure def stressu(t: Tr, dim: int): int = div(mul(t.k, sq(vel(t))), volu(t, dim))
  // mid2 = org + end of the mirrored axis
  pure def onPt(t: Tr, dim: int, mid2: int, q: Pt): Pt =
    if (t.kind == BOOST) q.with("v", vadd(q.v, t.vec))
    else if (t.kind == SHIFT) q.with("x", vadd(q.x, t.vec))
    else if (t.kind == PERM) { ...q, x: permV(t.perm, q.x), v: permV(t.perm, q.v), f: permV(t.perm, q.f),
      S: permM(t.perm, q.S), F: permM(t.perm, q.F), Fs: permM(t.perm, q.Fs), C: permM(t.perm, q.C) }
    else if (t.kind == MIRROR) { ...q, x: v3(i => if (i == t.ax) mid2 - q.x[i] else q.x[i]), v: mirV(t.ax, q.v), f: mirV(t.ax, q.f),
      S: mirM(t.ax, q.S), F: mirM(t.ax, q.F), Fs: mirM(t.ax, q.Fs), C: mirM(t.ax, q.C) }
    else if (t.kind == UNITS) { ...q, m: mul(t.k, q.m), x: vscale(t.vec[0], q.x), v: vscale(vel(t), q.v), C: mscale(div(ONE, t.vec[1]), q.C),
      f: vscale(mul(t.k, div(vel(t), t.vec[1])), q.f), vol: mul(volu(t, dim), q.vol), vol0: mul(volu(t, dim), q.vol0), S: mscale(stressu(t, dim), q.S) }
    else q
  pure def onPts(t: Tr, dim: int, mid2: int, l: List[Pt]): List[Pt] = {
    val m = l.foldl([], (a, q) => a.append(onPt(t, dim, mid2, q)))
    if (t.kind == ORDER) m.foldl([], (a, q) => [q].concat(a))
    else if (t.kind == SPLIT) m.foldl([], (a, q) => a.concat([
      { ...q, m: mul(t.k, q.m), vol: mul(t.k, q.vol), vol0: mul(t.k, q.vol0) },
      { ...q, m: q.m - mul(t.k, q.m), vol: q.vol - mul(t.k, q.vol), vol0: q.vol0 - mul(t.k, q.vol0) }]))
    else if (t.kind == TWO) half(m, 0).concat(half(m, 1))
    else m
  }
  pure def half(l: List[Pt], r: int): List[Pt] = range(0, l.length()).foldl([], (a, i) => if (i % 2 == r) a.append(l[i]) else a)
  pure def onBodies(t: Tr, dim: int, mid2: int, bs: List[Body]): List[Body] =
    if (t.kind == TWO) [bs[0].with("pts", half(bs[0].pts, 0))].concat(bs.slice(1, bs.length())).append(bs[0].with("pts", half(bs[0].pts, 1)))
    else bs.foldl([], (l, b) => l.append(b.with("pts", onPts(t, dim, mid2, b.pts))))
  pure def onForce(t: Tr, f: Frc): Frc =
    if (t.kind == TWO) f.with("pm", 2 * f.pm + 1)   // targets all bodies in the symmetry pairs
    else if (f.kind != 1) f
    else if (t.kind == PERM) f.with("vec", permV(t.perm, f.vec))
    else if (t.kind == UNITS) f.with("vec", vscale(div(vel(t), t.vec[1]), f.vec))
    else if (t.kind == MIRROR) f.with("vec", mirV(t.ax, f.vec))
    else f
  pure def mid2Of(s: Scn, ax: int): int = 2 * s.org[ax] + s.cells[ax] * s.h
  pure def onScn(t: Tr, s: Scn): Scn = {
    val fs = s.forces.foldl([], (l, f) => l.append(onForce(t, f)))
    { ...s,
      org: if (t.kind == SHIFT) vadd(s.org, t.vec) else if (t.kind == PERM) permV(t.perm, s.org) else if (t.kind == UNITS) vscale(t.vec[0], s.org) else s.org,
      cells: if (t.kind == PERM) permL(t.perm, s.dim, s.cells) else s.cells,
      shift: if (t.kind == PERM) permV(t.perm, s.shift) else if (t.kind == MIRROR) v3(i => if (i == t.ax) cells1(s, s.cells[i]) * s.h1 - s.cells[i] * s.h - s.shift[i] else s.shift[i]) else if (t.kind == UNITS) vscale(t.vec[0], s.shift) else s.shift,
      bodies: onBodies(t, s.dim, mid2Of(s, t.ax), s.bodies),
      forces: if (t.kind == ORDER) fs.foldl([], (a, f) => [f].concat(a)) else fs,
      bsel: if (t.kind == ISOLATE) t.keep else if (t.kind == TWO) 2 * s.bsel + 1 else s.bsel,
      ord: if (t.kind == ORDER) (s.ord + 1 + t.k) % 16 else s.ord,
      h: if (t.kind == UNITS) mul(t.vec[0], s.h) else s.h,
      h1: if (t.kind == UNITS) mul(t.vec[0], s.h1) else s.h1,
      dt: if (t.kind == UNITS) mul(t.vec[1], s.dt) else s.dt,
      E: if (t.kind == UNITS) mul(stressu(t, s.dim), s.E) else s.E }
  }
  // the image of a result: positions of a boosted system also move by the boost
  pure def onResult(t: Tr, dim: int, mid2: int, time: int, l: List[Pt]): List[Pt] =
    moved(t, time, onPts(t, dim, mid2, l))
  pure def moved(t: Tr, time: int, l: List[Pt]): List[Pt] =
    if (t.kind == BOOST) l.foldl([], (a, q) => a.append(q.with("x", vadd(q.x, vscale(time, t.vec))))) else l
  pure def onBodyResults(t: Tr, dim: int, mid2: int, time: int, bs: List[Body]): List[Body] =
    onBodies(t, dim, mid2, bs).foldl([], (l, b) => l.append(b.with("pts", moved(t, time, b.pts))))
}
