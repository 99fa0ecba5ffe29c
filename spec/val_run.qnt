// Trace validation of recorded histories of a run and its files against run.qnt.
module val_run {
  import fx.* from "./fx"
  import hist.* from "./hist"
  import verdict.* from "./verdict"
  import dec.* from "./verdict"
  import lg.* from "./lg"

  // fields: 0 [k0, t0, nops, ncontents, d0], 1 lengths of the leaves, 2 values of the time step codes,
  // then per content [step, time, dt, leaf values...], per operation four fields:
  // [k, a, b, c, res, content, solver ok, meta ok], intermediate saves [step, content]*, sweep [dir, step, res, content, solver ok]*, [outside files there]
  type Seen = { c: Cont, id: int }
  type W = { s: Sys, seen: List[Seen], cont: int, saved: int -> (int -> int), v: V }

  pure def content(f: List[List[int]], i: int): List[int] = f[3 + i]
  // scale of every leaf over all contents of the history
  pure def scales(f: List[List[int]]): List[int] =
    range(0, f[1].length()).foldl(([], 3), (a, l) => (a._1.append(range(0, f[0][3]).foldl(0, (m, i) =>
      range(a._2, a._2 + f[1][l]).foldl(m, (n, j) => { val x = abs(content(f, i)[j]) if (x > n and finite(x)) x else n }))), a._2 + f[1][l]))._1
  // leaf-wise comparison of contents up to rounding
  pure def alike(v: V, cl: str, at_: int, f: List[List[int]], sc: List[int], i: int, j: int): V =
    if (i == j) hit(v, cl) else {
    val x = content(f, i)
    val y = content(f, j)
    if (x.length() != y.length()) ok_(v, cl, at_, 0, false) else
    range(0, f[1].length()).foldl((v, 3), (a, l) => {
      val bad = range(a._2, a._2 + f[1][l]).select(q => not(near(x[q], y[q], sc[l] / 1024 + 64)))
      (if (bad.length() == 0) hit(a._1, cl) else flag(hit(a._1, cl), cl, at_, l, x[bad[0]], y[bad[0]], sc[l] / 1024 + 64), a._2 + f[1][l]) })._1 }
  pure def cuts(c: Cont): List[int] = c.path.foldl([], (l, q) => if (q.n == 0) l else l.append(q.n))
  // a content that arose as c is observed as id
  pure def observe(w: W, at_: int, f: List[List[int]], sc: List[int], c: Cont, id: int): W = {
    val same = w.seen.select(z => z.c == c)
    val like = w.seen.select(z => z.c != c and sameRun(z.c, c))
    val v1 = if (same.length() == 0) w.v else ok_(w.v, "P28.same", at_, 0, same[0].id == id)
    val loaded = c.path.select(l => l.m == 9).length() > 0
    // judged against a run that was never interrupted, if there is one
    val pure_ = like.select(z => z.c.path.select(l => l.m == 9).length() == 0)
    val ref = if (pure_.length() > 0) pure_ else like
    val v2 = if (ref.length() == 0) v1 else alike(v1, if (loaded or ref[0].c.path.select(l => l.m == 9).length() > 0) "P27.continue" else if (cuts(ref[0].c) != cuts(c)) "P28.split" else "P28.modes", at_, f, sc, ref[0].id, id)
    val x = content(f, id)
    val v3_ = ok_(v2, "P28.step", at_, x[0], x[0] == stepNo(w.s, c))
    val ds = dtsOf(c.path)
    val t = ds.foldl(f[0][1], (a, d) => a + f[2][d])
    val v4 = near_(v3_, "P28.time", at_, 0, x[1], t, (ds.length() + 1) * (maxi(abs(t), f[0][1]) / 2^22 + 64))
    val v5 = ok_(v4, "P28.dt", at_, 0, x[2] == f[2][c.dt])
    { ...w, v: v5, seen: if (same.length() == 0) w.seen.append({ c: c, id: id }) else w.seen }
  }
  pure def remember(w: W, d: int, k: int, id: int): W = { ...w, saved: w.saved.set(d, w.saved.get(d).put(k, id)) }
  // what loading (d, k) must give in state s
  pure def sweep1(w: W, at_: int, q: List[int]): W = {
    val o = { k: LOAD, a: q[0], b: q[1], c: 0 }
    if (refused(w.s, o)) { ...w, v: ok_(w.v, "P27.refuses", at_, q[0], q[2] != 0) }
    else { ...w, v: ok_(ok_(ok_(w.v, "P27.accepts", at_, q[0], q[2] == 0), "P27.exact", at_, q[1], q[2] != 0 or q[3] == w.saved.get(q[0]).get(q[1])), "P27.solver", at_, 0, q[2] != 0 or q[4] == 1) }
  }
  pure def doOp(w: W, i: int, f: List[List[int]], sc: List[int]): W = {
    val b = 3 + f[0][3] + 4 * i
    val r = f[b]
    val o = { k: r[0], a: r[1], b: r[2], c: r[3] }
    val s1 = apply(w.s, o, f[0][4])
    val ref = refused(w.s, o)
    val v0 = if (ref) ok_(w.v, "P27.refuses", i, o.k, r[4] != 0)
      else if (o.k <= LOOPSAVE or o.k == SETDT or o.k == REBUILD) ok_(w.v, "P28.runs", i, o.k, r[4] == 0)
      else ok_(w.v, "P27.accepts", i, o.k, r[4] == 0)
    val w0 = { ...w, v: v0 }
    if (r[4] != 0) { ...w0, s: s1 }
    else {
      // contents written on the way
      val w1 = if (o.k == SAVE) remember(w0, w.s.ws[o.a], stepNo(w.s, w.s.cur), w.cont)
        else if (o.k == LOOPSAVE) {
          val at1 = savedAt(stepNo(w.s, w.s.cur), o.a, o.b)
          val g = f[b + 1]
          val u = { ...w0, v: ok_(w0.v, "P27.records", i, 0, g.length() == 2 * at1.length()) }
          if (g.length() != 2 * at1.length()) u else
          range(0, at1.length()).foldl(u, (z, q) => {
            val c = advance(w.s.cur, LOOP, at1[q], o.a)
            remember(observe(z, i, f, sc, c, g[2 * q + 1]), w.s.ws[o.c], stepNo(w.s, c), g[2 * q + 1]) }) }
        else w0
      // the state after the operation
      val w2 = if (o.k == LOAD and not(ref)) {
          val u = { ...w1, v: ok_(ok_(w1.v, "P27.exact", i, o.b, r[5] == w.saved.get(o.a).get(o.b)), "P27.solver", i, 0, r[6] == 1) }
          observe({ ...u, s: s1 }, i, f, sc, s1.cur, r[5]) }
        else if (o.k <= LOOPSAVE or o.k == SETDT or o.k == REBUILD) observe({ ...w1, s: s1 }, i, f, sc, s1.cur, r[5])
        else { ...w1, s: s1, v: ok_(w1.v, "P27.untouched", i, o.k, r[5] == w.cont) }
      val w3 = if (o.k == SAVESOLVER) { ...w2, v: ok_(w2.v, "P27.meta", i, 0, r[7] == 1) } else w2
      val w4 = { ...w3, cont: r[5], v: f[b + 3].indices().fold(w3.v, (v, q) => ok_(v, "P27.outside", i, q, f[b + 3][q] == 1)) }
      val m = f[b + 2].length() / 5
      range(0, m).foldl(w4, (z, q) => sweep1(z, i, sub(f[b + 2], q, 5))) }
  }
  pure def judge(f: List[List[int]], ev: int): V = {
    val sc = scales(f)
    val s0 = start(f[0][0], f[0][4])
    val w0 = observe({ s: s0, seen: [], cont: 0, saved: Map(0 -> Map(), 1 -> Map(), 2 -> Map()), v: newV(ev) }, -1, f, sc, s0.cur, 0)
    range(0, f[0][2]).foldl(w0, (w, i) => doOp(w, i, f, sc)).v
  }
  var i: int
  var out: V
  action init = all { i' = 0, out' = newV(0) }
  action step = all { i < EV.length(), i' = i + 1, out' = merge(out, judge(fieldsOf(EV[i]), i)) }
}
