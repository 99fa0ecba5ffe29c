// Constitutive laws as transition functions of one material point.
// Compression positive; L = -grad v, so D = sym(L) is the compression rate.
module laws {
  import fx.* from "./fx"
  import tens.* from "./tens"

  pure val LE: int = 0
  pure val NF: int = 1
  pure val MUI: int = 2
  pure val DP: int = 3
  pure val MCC: int = 4
  // parameter lists
  //  LE  [E, nu]                NF [K, visc, beta]
  //  MUI [mu_s, mu_d, I0, d_p, K, rho_p, alpha, pmin]
  //  DP  [K, nu, mu1, mu2, c0, mu1h, H, rho0]
  //  MCC [nu, M, lam, kap, N, pref, Kmin, Kmax, pmin, rho_p]   (Kmin/Kmax 0: none)
  type Law = { kind: int, p: List[int] }
  // a: eps_p_acc (DP) | p_c (MCC) | reference density (NF, MUI)
  type LSt = { S: List[int], e: List[int], a: int, p0: int, sref: List[int] }

  pure def jaumann(T: List[int], L: List[int], dt: int): List[int] = {
    val W = mscale(-dt, skew(L))
    madd(T, msub(mm(W, T), mm(T, W)))
  }
  pure def isoS(p: int): List[int] = diag3(p)

  // ---- linear elasticity ---------------------------------------------------
  pure def lame(l: Law): int = div(mul(l.p[0], l.p[1]), mul(ONE + l.p[1], ONE - 2 * l.p[1]))
  pure def shearE(E: int, nu: int): int = div(E, 2 * (ONE + nu))
  pure def bulkE(E: int, nu: int): int = div(E, 3 * (ONE - 2 * nu))
  pure def leStep(l: Law, s: LSt, L: List[int], dt: int): LSt = {
    val d = mscale(dt, sym(L))
    s.with("S", madd(s.S, madd(isoS(mul(lame(l), tr(d))), mscale(2 * shearE(l.p[0], l.p[1]), d))))
  }
  // ---- Newtonian fluid -----------------------------------------------------
  pure def nfPressure(l: Law, ratio: int): int = maxi(0, mul(l.p[0], pow(maxi(ratio, ONE / 1000000), l.p[2]) - ONE))
  pure def nfStep(l: Law, s: LSt, L: List[int], rho: int): LSt =
    s.with("S", madd(isoS(nfPressure(l, div(rho, s.a))), mscale(2 * l.p[1], dev(sym(L)))))
  // ---- mu(I) ---------------------------------------------------------------
  pure def muiStep(l: Law, s: LSt, L: List[int], rho: int): LSt = {
    val ratio = div(rho, s.a)
    if (ratio <= ONE) s.with("S", ZM) else {
      val p = maxi(mul(l.p[4], ratio - ONE), l.p[7])
      val dd = dev(sym(L))
      val gd2 = 2 * ddot(dd, dd)
      val gd = sqrt(gd2)
      val es = div(mul(l.p[0], p), sqrt(gd2 + sq(l.p[6])))
      val ed = div(mul(mul(l.p[3], p), l.p[1] - l.p[0]), mul(l.p[2], sqrt(div(p, l.p[5]))) + mul(l.p[3], gd))
      s.with("S", madd(isoS(p), mscale(2 * (es + ed), dd)))
    }
  }
  // ---- Drucker-Prager --------------------------------------------------------
  pure def dpG(l: Law): int = mul(div(3 * (ONE - 2 * l.p[1]), 2 * (ONE + l.p[1])), l.p[0])
  pure def dpCoh(l: Law, a: int): int = l.p[4] + mul(l.p[6], a)
  pure def dpYield(l: Law, S: List[int], a: int): int =
    sqrt(J2(S)) - mul(l.p[2], press(S)) - mul(l.p[3], dpCoh(l, a))
  pure def dpTrial(l: Law, s: LSt, L: List[int], dt: int): List[int] = madd(jaumann(s.e, L, dt), mscale(dt, sym(L)))
  // 0 elastic, 1 cone, 2 apex, 3 disconnected
  pure def dpBranch(l: Law, s: LSt, L: List[int], dt: int, rho: int): int = {
    val K = l.p[0]
    val G = dpG(l)
    val et = dpTrial(l, s, L, dt)
    val p = mul(K, tr(et)) + s.p0
    val st = mscale(2 * G, dev(et))
    val q = sqrt(ddot(st, st) / 2)
    val f = q - mul(l.p[2], p) - mul(l.p[3], dpCoh(l, s.a))
    if (rho < l.p[7]) 3 else if (f <= 0) 0 else {
      val pm = div(f, G + mul(K, mul(l.p[2], l.p[5])) + mul(l.p[6], sq(l.p[3])))
      if (q - mul(G, pm) < 0) 2 else 1 }
  }
  pure def dpStep(l: Law, s: LSt, L: List[int], dt: int, rho: int): LSt = {
    val K = l.p[0]
    val G = dpG(l)
    val et = dpTrial(l, s, L, dt)
    val p = mul(K, tr(et)) + s.p0
    val st = mscale(2 * G, dev(et))
    val q = sqrt(ddot(st, st) / 2)
    val f = q - mul(l.p[2], p) - mul(l.p[3], dpCoh(l, s.a))
    val b = dpBranch(l, s, L, dt, rho)
    if (b == 3) { ...s, S: ZM, e: ZM }
    else if (b == 0) { ...s, S: madd(isoS(p), st), e: et }
    else if (b == 1) {
      val pm = div(f, G + mul(K, mul(l.p[2], l.p[5])) + mul(l.p[6], sq(l.p[3])))
      val pn = p + mul(mul(K, pm), l.p[5])
      val sn = mscale(div(q - mul(G, pm), q), st)
      { ...s, S: madd(isoS(pn), sn), e: madd(mdivs(sn, 2 * G), isoS(div(pn - s.p0, K) / 3)), a: s.a + mul(l.p[3], pm) }
    } else {
      val al = div(l.p[3], l.p[2])
      val dpv = div(mul(l.p[2], p) + mul(l.p[3], dpCoh(l, s.a)), mul(K, l.p[2]) + mul(mul(l.p[6], l.p[3]), al))
      val pn = p - mul(K, dpv)
      { ...s, S: isoS(pn), e: isoS(div(pn - s.p0, K) / 3), a: s.a - mul(al, dpv) }
    }
  }
  // ---- Modified Cam clay -----------------------------------------------------
  pure def mccF(M: int, p: int, pc: int, q: int): int = div(sq(q), sq(M)) + sq(p) - mul(pc, p)
  pure def mccK(l: Law, p: int): int = {
    val k = div(maxi(p, ONE), l.p[3])
    val k1 = if (l.p[6] > 0) maxi(k, l.p[6]) else k
    if (l.p[7] > 0) mini(k1, l.p[7]) else k1
  }
  pure def mccG(l: Law, K: int): int = mul(div(3 * (ONE - 2 * l.p[0]), 2 * (ONE + l.p[0])), K)
  pure def vNcl(l: Law, pc: int): int = mul(l.p[4], exp(mul(l.p[2], ln(div(l.p[5], pc)))))
  pure def vSl(l: Law, pc: int, p: int): int = mul(vNcl(l, pc), exp(mul(l.p[3], ln(div(pc, p)))))
  type Tri = { p: int, q: int, s: List[int], K: int }
  pure def mccTrial(l: Law, s: LSt, L: List[int], dt: int): Tri = {
    val Sr = jaumann(s.S, L, dt)
    val d = mscale(dt, sym(L))
    val pp = maxi(press(Sr), l.p[8])
    val pt = mul(pp, exp(div(tr(d), l.p[3])))
    val K = mccK(l, maxi(pt, l.p[8]))
    val sp = madd(Sr, isoS(-pp))
    val st = madd(sp, mscale(2 * mccG(l, K), dev(d)))
    { p: pt, q: sqrt(3 * ddot(st, st) / 2), s: st, K: K }
  }
  // the plastic volumetric strain increment x: bisection between 0 and the
  // value at which the return meets the critical state line
  type Ret = { p: int, pc: int, q: int, fac: int, f: int, x: int }
  pure def mccAt(l: Law, t: Tri, pc0: int, x: int): Ret = {
    val cp = l.p[2] - l.p[3]
    val p = mul(t.p, exp(div(-x, l.p[3])))
    val pc = mul(pc0, exp(div(x, cp)))
    val den = mul(sq(l.p[1]), 2 * p - pc)
    val pm = if (den == 0) 0 else div(x, den)
    val fac = div(ONE, ONE + 6 * mul(mccG(l, mccK(l, p)), pm))
    val q = mul(t.q, fac)
    { p: p, pc: pc, q: q, fac: fac, f: mccF(l.p[1], p, pc, q), x: x }
  }
  pure def mccReturn(l: Law, t: Tri, pc0: int): Ret = {
    val cp = l.p[2] - l.p[3]
    val xs = div(ln(2 * t.p) - ln(pc0), div(ONE, l.p[3]) + div(ONE, cp))
    // scale x by xs in (0, 1): precision independent of its size
    val r = range(0, 46).foldl((0, ONE), (b, i) => {
      val m = (b._1 + b._2) / 2
      if (mccAt(l, t, pc0, mul(xs, m)).f > 0) (m, b._2) else (b._1, m) })
    val z = mccAt(l, t, pc0, mul(xs, r._1))
    // at the critical state the multiplier is 0/0: the deviator follows from the surface
    val q = mul(l.p[1], sqrt(mul(z.p, maxi(0, z.pc - z.p))))
    if (abs(xs) < ONE / 2^20) { ...z, q: q, fac: div(q, t.q) } else z
  }
  pure def mccConnected(l: Law, rho: int): bool = div(l.p[9], rho) <= mul(l.p[4], ONE - ONE / 1000000)
  pure def mccStep(l: Law, s: LSt, L: List[int], dt: int, rho: int): LSt =
    if (not(mccConnected(l, rho))) s.with("S", ZM)
    else {
      val t = mccTrial(l, s, L, dt)
      if (mccF(l.p[1], t.p, s.a, t.q) <= 0) s.with("S", madd(isoS(t.p), t.s))
      else {
        val r = mccReturn(l, t, s.a)
        { ...s, S: madd(isoS(r.p), mscale(r.fac, t.s)), a: r.pc }
      }
    }
  // 0 elastic, 1 wet (contracting), 2 dry (dilating), 3 disconnected
  pure def mccBranch(l: Law, s: LSt, L: List[int], dt: int, rho: int): int =
    if (not(mccConnected(l, rho))) 3 else {
      val t = mccTrial(l, s, L, dt)
      if (mccF(l.p[1], t.p, s.a, t.q) <= 0) 0 else if (2 * t.p > s.a) 1 else 2 }

  pure def lawStep(l: Law, s: LSt, L: List[int], dt: int, rho: int): LSt =
    if (l.kind == LE) leStep(l, s, L, dt)
    else if (l.kind == NF) nfStep(l, s, L, rho)
    else if (l.kind == MUI) muiStep(l, s, L, rho)
    else if (l.kind == DP) dpStep(l, s, L, dt, rho)
    else mccStep(l, s, L, dt, rho)
  pure def branch(l: Law, s: LSt, L: List[int], dt: int, rho: int): int =
    if (l.kind == DP) dpBranch(l, s, L, dt, rho)
    else if (l.kind == MCC) mccBranch(l, s, L, dt, rho)
    else if (l.kind == MUI) (if (div(rho, s.a) <= ONE) 3 else 0)
    else if (l.kind == NF) (if (rho <= s.a) 3 else 0)
    else 0
  // the scale stresses are compared at
  pure def stiffness(l: Law, s: LSt): int =
    if (l.kind == LE) l.p[0] else if (l.kind == NF) l.p[0] else if (l.kind == MUI) l.p[4]
    else if (l.kind == DP) l.p[0] else mccK(l, maxi(press(s.S), s.a))
  // elastic wave speed squared times density
  pure def waveModulus(l: Law): int =
    if (l.kind == LE) bulkE(l.p[0], l.p[1]) + 4 * shearE(l.p[0], l.p[1]) / 3
    else if (l.kind == NF) mul(l.p[0], l.p[2])
    else if (l.kind == MUI) l.p[4]
    else l.p[0] + 4 * dpG(l) / 3
  pure def dtCrit(l: Law, rho: List[int], speed: List[int], alpha: int, h: int): int = {
    val m = rho.indices().fold(0, (a, i) => maxi(a, sqrt(div(waveModulus(l), rho[i])) + speed[i]))
    div(mul(alpha, h), m + ONE / 1000000000)
  }
}
