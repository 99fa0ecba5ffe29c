// Trace validation of the helper functions: what they returned for single
// items (first), for stacks (second) and for stacks of stacks (third).
module val_math {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import hlp.* from "./hlp"
  import verdict.* from "./verdict"
  import dec.* from "./verdict"
  import lg.* from "./lg"

  // fields: 0 [N, all finite] 1 A 2 B 3 F 4 P 5 V 6 W 7 Q 8 S (7 each) 9 par [dt, k0, degrees, gravity, grain size, grain density], then three per helper
  pure val I0: int = 10
  pure def eps(x: int): int = x / 2^19 + 2^14      // 2^14: 2^-34, below what matters
  // compare one helper on every item; w(i) expected components, t(i) tolerance
  pure def three(v: V, cl: str, f: List[List[int]], k: int, n: int, w: List[List[int]], t: List[int]): V = {
    val b = I0 + 3 * k
    val m = w[0].length()
    val v1 = ok_(v, cl, 0, -2, f[b].length() == n * m)
    if (f[b].length() != n * m) v1 else {
      val v2 = range(0, n).foldl(v1, (u, i) => list_(u, cl, i, sub(f[b], i, m), w[i], t[i]))
      range(1, 3).foldl(v2, (u, q) =>
        if (f[b + q].length() == 0) u
        else if (f[b + q].length() != n * m) ok_(u, "P31.stack", k, q, false)
        else range(0, n).foldl(u, (x, i) => list_(x, "P31.stack", k, sub(f[b + q], i, m), sub(f[b], i, m), 2 * t[i]))) } }
  pure def over(n: int, g: (int) => List[int]): List[List[int]] = range(0, n).foldl([], (l, i) => l.append(g(i)))
  pure def tols(n: int, g: (int) => int): List[int] = range(0, n).foldl([], (l, i) => l.append(g(i)))

  pure def judge(ev: int): V = {
    val f = fieldsOf(EV[ev])
    val n = f[0][0]
    val par = f[9]
    val dt = par[0]
    val As = range(0, n).foldl([], (l, i) => l.append(sub(f[1], i, 9)))
    val Bs = range(0, n).foldl([], (l, i) => l.append(sub(f[2], i, 9)))
    val Fs = range(0, n).foldl([], (l, i) => l.append(sub(f[3], i, 9)))
    val Vs = range(0, n).foldl([], (l, i) => l.append(sub(f[5], i, 3)))
    val Ws = range(0, n).foldl([], (l, i) => l.append(sub(f[6], i, 3)))
    val Qs = range(0, n).foldl([], (l, i) => l.append(sub(f[7], i, 4)))
    val Ss = range(0, n).foldl([], (l, i) => l.append(sub(f[8], i, 7)))
    val P = f[4]
    val ta = range(0, n).foldl([], (l, i) => l.append(eps(mmaxabs(As[i]))))
    val tb = range(0, n).foldl([], (l, i) => l.append(eps(mmaxabs(Bs[i]))))
    val tab = range(0, n).foldl([], (l, i) => l.append(eps(maxi(mmaxabs(As[i]), mmaxabs(Bs[i])))))
    val tap = range(0, n).foldl([], (l, i) => l.append(eps(maxi(mmaxabs(As[i]), abs(P[i])))))
    val taa = range(0, n).foldl([], (l, i) => l.append(16 * eps(sq(mmaxabs(As[i])))))
    val tbb = range(0, n).foldl([], (l, i) => l.append(16 * eps(sq(mmaxabs(Bs[i])))))
    val v0 = ok_(newV(ev), "P31.robust", 0, 0, f[0][1] == 1)
    val v1 = three(v0, "P31.spin", f, 0, n, over(n, i => skew(As[i])), ta)
    val v2 = three(v1, "P31.sym", f, 1, n, over(n, i => sym(As[i])), ta)
    val v3_ = three(v2, "P31.skew", f, 2, n, over(n, i => skew(As[i])), ta)
    val v4 = three(v3_, "P31.jaumann", f, 3, n, over(n, i => jaumann(As[i], skew(Bs[i]), dt)), tols(n, i => ta[i] + 8 * eps(mul(dt, mul(mmaxabs(As[i]), mmaxabs(Bs[i]))))))
    val v5 = three(v4, "P31.contraction", f, 4, n, over(n, i => [ddot(As[i], Bs[i])]), tols(n, i => 16 * eps(mul(mmaxabs(As[i]), mmaxabs(Bs[i])))))
    val v6 = three(v5, "P31.pressure", f, 5, n, over(n, i => [press(As[i])]), ta)
    val v7 = three(v6, "P31.deviator", f, 6, n, over(n, i => dev(As[i])), ta)
    val v8 = three(v7, "P31.deviator", f, 7, n, over(n, i => msub(As[i], diag3(P[i]))), tap)
    val v9 = three(v8, "P31.J2", f, 8, n, over(n, i => [J2(As[i])]), taa)
    val v10 = three(v9, "P31.J2", f, 9, n, over(n, i => [ddot(Bs[i], Bs[i]) / 2]), tbb)
    val v11 = three(v10, "P31.q", f, 10, n, over(n, i => [qvm(As[i])]), tols(n, i => 16 * ta[i] + 2^25))
    val v12 = three(v11, "P31.q", f, 11, n, over(n, i => [sqrt(3 * ddot(Bs[i], Bs[i]) / 2)]), tols(n, i => 16 * tb[i] + 2^25))
    val v13 = three(v12, "P31.tau", f, 12, n, over(n, i => [tau(As[i])]), tols(n, i => 16 * ta[i] + 2^25))
    val v14 = three(v13, "P31.volumetric", f, 13, n, over(n, i => [tr(As[i])]), tols(n, i => 3 * ta[i]))
    val v15 = three(v14, "P31.rate", f, 14, n, over(n, i => sym(As[i])), ta)
    val v16 = three(v15, "P31.eqstrain", f, 15, n, over(n, i => [eqStrain(As[i])]), tols(n, i => 16 * ta[i] + ONE / 2^26))
    val v17 = three(v16, "P31.eqstrain", f, 16, n, over(n, i => [sqrt(2 * ddot(Bs[i], Bs[i]) / 3)]), tols(n, i => 16 * tb[i] + ONE / 2^26))
    val v18 = three(v17, "P31.devstrain", f, 17, n, over(n, i => dev(As[i])), ta)
    val v19 = three(v18, "P31.devstrain", f, 18, n, over(n, i => msub(As[i], diag3(P[i] / 3))), tap)
    val v20 = three(v19, "P31.gamma", f, 19, n, over(n, i => [gammaS(As[i])]), tols(n, i => 16 * ta[i] + 2^25))
    val v21 = three(v20, "P31.kinetic", f, 20, n, over(n, i => [kinetic(Ss[i][2], Vs[i])]), tols(n, i => eps(kinetic(Ss[i][2], Vs[i]))))
    val v22 = three(v21, "P31.plastic", f, 21, n, over(n, i => msub(As[i], Bs[i])), tab)
    val v23 = three(v22, "P31.small", f, 22, n, over(n, i => small(Fs[i])), tols(n, i => eps(ONE + mmaxabs(Fs[i]))))
    val v24 = three(v23, "P31.voids", f, 23, n, over(n, i => [phiToE(Ss[i][0])]), tols(n, i => eps(div(ONE, Ss[i][0]))))
    val v25 = three(v24, "P31.voids", f, 24, n, over(n, i => [eToPhi(Ss[i][1])]), tols(n, i => eps(ONE)))
    val v26 = range(0, n).foldl(v25, (u, i) => {
      val den = ONE - mul(tr(As[i]), dt)
      // the linearised balance has a meaning while the volume stays positive
      if (den < ONE / 8) u else near_(u, "P31.balance", i, 0, f[I0 + 75][i], phiNext(As[i], Ss[i][0], dt),
        mul(eps(ONE), ONE) + div(div(mul(Ss[i][0], 8 * eps(ONE + mul(mmaxabs(As[i]), dt))), den), den)) })
    val v27 = three(v26, "P31.voids", f, 26, n, over(n, i => [div(par[5], Ss[i][2]) - ONE]), tols(n, i => 2 * eps(div(par[5], Ss[i][2]) + ONE)))
    val v28 = three(v27, "P31.voids", f, 27, n, over(n, i => [div(Ss[i][2], par[5])]), tols(n, i => 2 * eps(div(Ss[i][2], par[5]) + ONE)))
    val a = div(mul(par[2], PI), R(180))
    val sl = range(0, n).foldl([], (l, i) => l.append(slopeStress(par[3], a, par[1], Ss[i][2], Ss[i][3])))
    val ts = range(0, n).foldl([], (l, i) => l.append(4 * eps(mul(mul(par[3], Ss[i][2]), Ss[i][3]))))
    val v29 = three(v28, "P31.lithostatic", f, 28, n, over(n, i => [press(sl[i])]), ts)
    val v30 = three(v29, "P31.lithostatic", f, 29, n, over(n, i => [sqrt(sq(sl[i][8] - sl[i][0]) + 3 * sq(sl[i][2]))]), tols(n, i => 4 * ts[i]))
    val tq = range(0, n).foldl([], (l, i) => l.append(2 * eps(abs(P[i]) + abs(Bs[i][0]))))
    val v31 = three(v30, "P31.reconstruct", f, 30, n, over(n, i => triaxial(P[i], Bs[i][0])), tq)
    val v32 = three(v31, "P31.rotate", f, 31, n, over(n, i => mv(rotQ(Qs[i]), Vs[i])), tols(n, i => 16 * eps(vmaxabs(Vs[i]))))
    val v33 = three(v32, "P31.rotate", f, 32, n, Vs, tols(n, i => 32 * eps(vmaxabs(Vs[i]))))     // there and back
    val v34 = three(v33, "P31.rotate", f, 33, n, over(n, i => rot2(Ss[i][6], Vs[i])), tols(n, i => 8 * eps(vmaxabs(Vs[i]))))
    val v35 = three(v34, "P31.rotate", f, 34, n, over(n, i => [Vs[i][0], Vs[i][1]]), tols(n, i => 16 * eps(vmaxabs(Vs[i]))))
    // a step of rotation: a unit quaternion, that turns about w by |w| dt up to the third order
    val v36 = range(0, n).foldl(v35, (u, i) => {
      val q = sub(f[I0 + 3 * 35], i, 4)
      val th = mul(norm(Ws[i]), dt)
      val u1 = near_(u, "P31.turn", i, 0, dot(q.slice(1, 4), q.slice(1, 4)) + sq(q[0]), ONE, ONE / 2^19)
      if (th > ONE or not(allFinite(q))) u1
      else list_(u1, "P31.turn", i, rotQ(q), mm(mexp(mscale(dt, crossM(Ws[i]))), rotQ(Qs[i])), mul(th, sq(th)) / 8 + ONE / 2^17) })
    val v37 = three(v36, "P31.turn2", f, 36, n, over(n, i => [Ss[i][6] + mul(Ws[i][0], dt)]), tols(n, i => eps(abs(Ss[i][6]) + abs(mul(Ws[i][0], dt)))))
    // inverses: of numbers (with their clipped slope), of 2x2 and 3x3 tensors
    val v38 = range(0, n).foldl(v37, (u, i) => {
      val d = Ss[i][5]
      val y = f[I0 + 3 * 37][i]
      val g = f[I0 + 3 * 38][i]
      val u1 = if (d == 0) u else near_(u, "P31.inverse", i, 0, mul(y, d), ONE, ONE / 2^16)
      val lim = R(1000000)
      val want = if (d == 0) -lim else { val e = div(ONE, sq(d)) if (e > lim) -lim else -e }
      near_(u1, "P31.slope", i, 0, g, want, abs(want) / 2^14 + ONE / 2^20) })
    val v39 = range(0, n).foldl(v38, (u, i) => {
      val F = Fs[i]
      val M = mmaxabs(F)
      val dF = det(F)
      val X = sub(f[I0 + 3 * 39], i, 9)
      if (M == 0 or abs(dF) < mul(M, sq(M)) / 2^12) u else list_(u, "P31.inverse", i, mm(F, X), IM, 16 * eps(ONE + div(mul(M, sq(M)), abs(dF)))) })
    val v40 = range(0, n).foldl(v39, (u, i) => {
      val F = Fs[i]
      val G = [F[0], F[1], 0, F[3], F[4], 0, 0, 0, ONE]
      val X = sub(f[I0 + 3 * 40], i, 4)
      val dG = det(G)
      val g2 = vmaxabs([F[0], F[1], F[3], F[4]])
      if (g2 == 0 or abs(dG) < sq(g2) / 2^12) u else list_(u, "P31.inverse", i, mm(G, [X[0], X[1], 0, X[2], X[3], 0, 0, 0, ONE]), IM, 16 * eps(ONE + div(sq(g2), abs(dG)))) })
    val v41 = three(v40, "P31.norm", f, 41, n, over(n, i => [norm(Vs[i])]), tols(n, i => 2 * eps(vmaxabs(Vs[i])) + ONE / 2^19))
    // the logarithmic strain: symmetric, and its exponential is the left stretch
    val v42 = range(0, n).foldl(v41, (u, i) => {
      val F = Fs[i]
      val e = sub(f[I0 + 3 * 42], i, 9)
      val C = mm(F, transp(F))
      val M = mmaxabs(F)
      if (M == 0 or abs(det(F)) < mul(M, sq(M)) / 2^14 or not(allFinite(e)) or mmaxabs(e) > R(10)) u
      else {
        val u1 = ok_(u, "P31.hencky", i, 0, issym(e, ONE / 2^18))
        val u2 = list_(u1, "P31.hencky", i, mexp(mscale(-2 * ONE, e)), C, mmaxabs(C) / 2^13)
        range(1, 3).foldl(u2, (x, q) => list_(x, "P31.stack", 42, sub(f[I0 + 3 * 42 + q], i, 9), e, ONE / 2^14)) } })
    range(0, n).foldl(v42, (u, i) => {
      val p = abs(P[i])
      val d = par[4]
      if (p < ONE / 64) u
      else range(0, 2).foldl(u, (x, q) => near_(x, "P31.inertial", i, q, f[I0 + 3 * 43 + q][i], inertial(p, Ss[i][4], d, par[5]), 4 * eps(inertial(p, Ss[i][4], d, par[5])) + mul(mul(Ss[i][4], d), div(ONE / 2^30, p)))) })
  }
  var i: int
  var out: V
  action init = all { i' = 0, out' = newV(0) }
  action step = all { i < EV.length(), i' = i + 1, out' = merge(out, judge(i)) }
}
