// Pairs of recorded runs: a simulation and its image under a symmetry.
module val_sym {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import mpm.* from "./mpm"
  import sym.* from "./sym"
  import verdict.* from "./verdict"
  import dec.* from "./verdict"
  import lg.* from "./lg"

  pure def points(n: int, f: List[List[int]], o: int): List[Pt] = range(0, n).foldl([], (l, i) => l.append({
    x: sub(f[o], i, 3), v: sub(f[o + 1], i, 3), f: sub(f[o + 2], i, 3), m: f[o + 3][i], vol: f[o + 4][i], vol0: f[o + 5][i],
    S: sub(f[o + 6], i, 9), F: sub(f[o + 7], i, 9), Fs: sub(f[o + 8], i, 9), C: sub(f[o + 9], i, 9) }))
  pure def pname(kind: int): str = if (kind == BOOST) "P05.galilean" else if (kind == ISOLATE) "P10.isolated"
    else if (kind == ORDER) "P09.order" else if (kind == SPLIT) "P09.split" else if (kind == TWO) "P09.two" else if (kind == SHIFT) "P09.shift"
    else if (kind == PERM) "P09.axes" else if (kind == MIRROR) "P09.mirror" else "P09.units"

  pure def judge(ev: int): V = {
    val f = fieldsOf(EV[ev])
    val m = f[0]
    val t: Tr = { kind: m[0], vec: m.slice(1, 4), perm: m.slice(4, 7), ax: m[7], k: m[8], keep: 0 }
    val dim = m[9]
    val mid2 = m[10]
    val time = m[11]
    val h = m[12]
    val dt = m[13]
    val E = m[14]
    val nm = pname(t.kind)
    range(0, m[15]).foldl(newV(ev), (v, b) => {
      val o = 1 + 21 * b
      val A = onResult(if (t.kind == TWO and b > 0) t.with("kind", 0) else t, dim, mid2, time, points(f[o][0], f, o + 1))
      val Bp = points(f[o][1], f, o + 11)
      if (A.length() != Bp.length()) flag(hit(v, nm), nm, b, -1, Bp.length(), A.length(), 0)
      else range(0, A.length()).foldl(v, (w, i) => {
        val q = A[i]
        val r = Bp[i]
        val k = 100 * b + i
        val tv = div(h, dt) / 2^14 + vmaxabs(q.v) / 2^16
        val tx = h / 2^14 + vmaxabs(q.x) / 2^20 + vmaxabs(t.vec) / 2^20
        val tS = (mmaxabs(q.S) + E) / 2^13 + 64
        val w1 = list_(w, nm, k, r.x, q.x, tx)
        val w2 = list_(w1, nm, k, r.v, q.v, tv)
        val w3 = list_(w2, nm, k, r.F, q.F, ONE / 2^13)
        val w4 = list_(w3, nm, k, r.Fs, q.Fs, ONE / 2^12)
        val w5 = list_(w4, nm, k, r.C, q.C, div(ONE, dt) / 2^13)
        val w6 = list_(w5, nm, k, r.S, q.S, tS)
        val w7 = near_(w6, nm, k, 0, r.m, q.m, abs(q.m) / 2^20 + 16)
        near_(w7, nm, k, 1, r.vol, q.vol, abs(q.vol) / 2^13 + 64)
      })
    })
  }
  var i: int
  var out: V
  action init = all { i' = 0, out' = newV(0) }
  action step = all { i < EV.length(), i' = i + 1, out' = merge(out, judge(i)) }
}
