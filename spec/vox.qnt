// Objects defined by samples: a table of distances (voxels), and clouds of material points.
module vox {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import sdf.* from "./sdf"
  pure val PI: int = 884279719003555
  // n nodes along the axes; the box from lo of size sz; data row by row
  type Vox = { n: List[int], lo: List[int], sz: List[int], data: List[int], scale: int, thick: int }
  // place in the table along an axis: node below and fraction, clamped to the box
  pure def place(v: Vox, q: List[int], d: int): { i: int, f: int, out: bool } = {
    val t = div(div(q[d], v.scale) - v.lo[d], v.sz[d]) * (v.n[d] - 1)
    val c = clampi(t, 0, (v.n[d] - 1) * ONE)
    val i = mini(floorToInt(c), maxi(v.n[d] - 2, 0))
    { i: i, f: c - i * ONE, out: c != t } }
  pure def node(v: Vox, i: int, j: int, k: int): int = v.data[(mini(i, v.n[0] - 1) * v.n[1] + mini(j, v.n[1] - 1)) * v.n[2] + mini(k, v.n[2] - 1)]
  pure def mix(a: int, b: int, f: int): int = a + mul(b - a, f)
  pure def table(v: Vox, q: List[int]): int = {
    val a = place(v, q, 0)
    val b = place(v, q, 1)
    val c = place(v, q, 2)
    val p = mix(mix(node(v, a.i, b.i, c.i), node(v, a.i, b.i, c.i + 1), c.f), mix(node(v, a.i, b.i + 1, c.i), node(v, a.i, b.i + 1, c.i + 1), c.f), b.f)
    val q2 = mix(mix(node(v, a.i + 1, b.i, c.i), node(v, a.i + 1, b.i, c.i + 1), c.f), mix(node(v, a.i + 1, b.i + 1, c.i), node(v, a.i + 1, b.i + 1, c.i + 1), c.f), b.f)
    mix(p, q2, a.f) }
  // distance of a local point: scaled with the object, reduced by the thickness
  pure def vdist(v: Vox, q: List[int]): int = mul(table(v, q), v.scale) - v.thick
  pure def slope(v: Vox, q: List[int]): List[int] = {
    val a = place(v, q, 0)
    val b = place(v, q, 1)
    val c = place(v, q, 2)
    val x = mix(mix(node(v, a.i + 1, b.i, c.i) - node(v, a.i, b.i, c.i), node(v, a.i + 1, b.i, c.i + 1) - node(v, a.i, b.i, c.i + 1), c.f),
      mix(node(v, a.i + 1, b.i + 1, c.i) - node(v, a.i, b.i + 1, c.i), node(v, a.i + 1, b.i + 1, c.i + 1) - node(v, a.i, b.i + 1, c.i + 1), c.f), b.f)
    val y = mix(mix(node(v, a.i, b.i + 1, c.i) - node(v, a.i, b.i, c.i), node(v, a.i, b.i + 1, c.i + 1) - node(v, a.i, b.i, c.i + 1), c.f),
      mix(node(v, a.i + 1, b.i + 1, c.i) - node(v, a.i + 1, b.i, c.i), node(v, a.i + 1, b.i + 1, c.i + 1) - node(v, a.i + 1, b.i, c.i + 1), c.f), a.f)
    val z = mix(mix(node(v, a.i, b.i, c.i + 1) - node(v, a.i, b.i, c.i), node(v, a.i, b.i + 1, c.i + 1) - node(v, a.i, b.i + 1, c.i), b.f),
      mix(node(v, a.i + 1, b.i, c.i + 1) - node(v, a.i + 1, b.i, c.i), node(v, a.i + 1, b.i + 1, c.i + 1) - node(v, a.i + 1, b.i + 1, c.i), b.f), a.f)
    [if (a.out) 0 else div(x * (v.n[0] - 1), v.sz[0]), if (b.out) 0 else div(y * (v.n[1] - 1), v.sz[1]), if (c.out) 0 else div(z * (v.n[2] - 1), v.sz[2])] }
  // the slope is the same on both sides: not on a face of the cells, nor on the boundary of the box
  pure def within(v: Vox, q: List[int], tol: int): bool = range(0, 3).foldl(true, (ok, d) => {
    val t = div(div(q[d], v.scale) - v.lo[d], v.sz[d]) * (v.n[d] - 1)
    val f = fmod(t, ONE)
    ok and (t < -tol or t > (v.n[d] - 1) * ONE + tol or (f > tol and f < ONE - tol)) })

  // ---- clouds: points with the radii of their volumes, k the sharpness of the blend (0 a plain union)
  pure def radius(dim: int, vol: int): int = if (dim == 2) sqrt(div(vol, PI)) else cbrt(div(3 * vol, 4 * PI))
  pure def gaps(xs: List[List[int]], rs: List[int], x: List[int]): List[int] = xs.indices().fold([], (l, i) => l.append(norm(vsub(x, xs[i])) - rs[i]))
  pure def cdist(k: int, l: List[int]): int = {
    val m = minL(l)
    if (k <= ONE / 1000) m else m - div(ln(l.foldl(0, (s, d) => s + exp(-mul(k, d - m)))), k) }
  pure def cnormal(k: int, xs: List[List[int]], l: List[int], x: List[int]): List[int] = {
    val m = minL(l)
    val g = xs.indices().fold([0, 0, 0], (s, i) => {
      val r = vsub(x, xs[i])
      val w = if (k <= ONE / 1000) (if (l[i] == m) ONE else 0) else exp(-mul(k, l[i] - m))
      val n = norm(r)
      [s[0] + mul(w, div(r[0], n)), s[1] + mul(w, div(r[1], n)), s[2] + mul(w, div(r[2], n))] })
    g }
}
