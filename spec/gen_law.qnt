// Generator: loading histories of single material points, with the theorems of
// each law as invariants of the model.
module gen_law {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import laws.* from "./laws"
  import scen.rnd from "./scen"
  import scen.srnd from "./scen"
  import scen.odd from "./scen"
  const KINDS: Set[int]
  const NP: int        // points per law

  var law: Law
  var seed: int
  var dt: int
  var init_: List[LSt]
  var rho0: List[int]
  var st: List[LSt]
  var prev: List[LSt]
  var rho: List[int]
  var Ls: List[List[int]]     // rate applied in the last step
  var br: List[int]
  var k: int

  pure def pick(l: List[int], s: int, i: int): int = l[rnd(s, i, l.length())]
  pure def lin(s: int, i: int, lo: int, hi: int): int = lo + (hi - lo) * rnd(s, i, 4097) / 4096
  pure def newLaw(kind: int, s: int): Law = { kind: kind, p:
    if (kind == LE) [lin(s, 1, R(1000), R(1000000)), lin(s, 2, 0, 45 * ONE / 100)]
    else if (kind == NF) [lin(s, 1, R(1000), R(2000000)), lin(s, 2, 0, R(5)), R(1 + rnd(s, 3, 7))]
    else if (kind == MUI) { val mus = lin(s, 1, ONE / 5, ONE * 6 / 10)
      [mus, mus + lin(s, 2, 0, ONE / 2), lin(s, 3, ONE / 10, ONE / 2), lin(s, 4, ONE / 1000, ONE / 20), lin(s, 5, R(10000), R(1000000)), R(2650), pick([ONE / 1000, ONE / 100, ONE / 10], s, 6), pick([0, R(50), R(2000)], s, 7)] }
    else if (kind == DP) { val m1 = lin(s, 3, ONE / 5, ONE)
      [lin(s, 1, R(50000), R(1000000)), lin(s, 2, 0, 45 * ONE / 100), m1, pick([0, ONE / 2, ONE], s, 4), pick([0, R(500), R(4000)], s, 5), pick([0, m1 / 2, m1], s, 6), pick([0, R(1000), R(20000)], s, 7), R(1000)] }
    else [lin(s, 1, ONE / 10, 4 * ONE / 10), lin(s, 2, 7 * ONE / 10, 14 * ONE / 10), lin(s, 3, ONE / 10, ONE / 5), lin(s, 4, ONE / 100, ONE / 20), lin(s, 5, 3 * ONE / 2, 3 * ONE), R(1000),
      pick([0, R(100000)], s, 6), pick([0, R(1000000), R(5000000)], s, 7), pick([R(1), R(10)], s, 8), pick([R(2650), R(2400)], s, 9)] }
  // q-type deviator with zero trace
  pure def devOf(s: int, i: int, amp: int): List[int] = dev(sym(m9((a, b) => mul(amp, odd(s, i + 3 * a + b, 8) * ONE / 16))))
  // minute increments from a stress-free state: every increment counts, however small
  pure def tiny(l: Law, s: int): bool = l.kind == LE and rnd(s, 190, 4) == 0
  pure def newState(l: Law, s: int, p: int): LSt =
    if (l.kind == LE) { S: if (tiny(l, s)) ZM else sym(m9((a, b) => odd(s, 100 + 9 * p + 3 * a + b, 20) * ONE * 40)), e: ZM, a: 0, p0: 0, sref: ZM }
    else if (l.kind == NF or l.kind == MUI) { S: ZM, e: ZM, a: lin(s, 100 + p, R(800), R(1700)), p0: 0, sref: ZM }
    else if (l.kind == DP) { val p0 = pick([R(500), R(5000), R(20000), 0], s, 100 + p)
      { S: isoS(p0), e: ZM, a: 0, p0: p0, sref: ZM } }
    else {
      val p0 = lin(s, 100 + p, R(5000), R(300000))
      val ocr = pick([ONE, 5 * ONE / 4, 2 * ONE, 4 * ONE, 6 * ONE], s, 110 + p)
      // q within the yield surface q <= M sqrt(p (pc - p))
      val qmax = mul(mul(l.p[1], p0), sqrt(ocr - ONE))
      val q = mul(qmax, rnd(s, 120 + p, 9) * ONE / 8)
      val S = [p0 - q / 3, 0, 0, 0, p0 - q / 3, 0, 0, 0, p0 + 2 * q / 3]
      { S: S, e: ZM, a: mul(p0, ocr), p0: 0, sref: S } }
  pure def newRho(l: Law, s: int, p: int, z: LSt): int =
    // mostly near the reference density; also strongly compressed, stretched and vacuum-like points
    if (l.kind == NF or l.kind == MUI) mul(z.a, if (rnd(s, 136 + p, 3) == 0) lin(s, 139 + p, ONE / 5, 3 * ONE) else ONE + srnd(s, 130 + p, 20) * ONE / 500 + ONE / 3000)
    else if (l.kind == DP) mul(l.p[7], ONE + lin(s, 130 + p, ONE / 50, ONE / 10))
    else if (l.kind == MCC) mul(div(l.p[9], vSl(l, z.a, press(z.S))), if (rnd(s, 135 + p, 9) == 0) ONE / 2 else ONE)
    else R(1000)
  // strain increment magnitude of a step
  pure def amp(l: Law, s: int): int = if (tiny(l, s)) ONE / 2^pick([22, 24], s, 140) else if (l.kind == MCC) pick([ONE / 4000, ONE / 1000], s, 140)
    else if (l.kind == DP) pick([ONE / 1000, ONE / 200], s, 140) else pick([ONE / 1000, ONE / 100], s, 140)
  pure def rate(l: Law, s: int, p: int, i: int): List[int] = {
    val mode = rnd(s, 150 + p, 7)
    val a = amp(l, s)
    // 0,1: general; 2: isotropic; 3: triaxial; 4: shear; 5: plane strain
    val e = if (mode <= 1) m9((x, y) => mul(a, odd(s, 200 + 90 * p + 10 * i + 3 * x + y, 8) * ONE / 16))
      else if (mode == 2) diag3(mul(a, (if (i < 3) ONE / 2 else -ONE) * (1 - 2 * rnd(s, 160 + p, 2))))
      else if (mode == 3) { val t = mul(a, ONE * (1 - 2 * rnd(s, 160 + p, 2))) [-t / 3, 0, 0, 0, -t / 3, 0, 0, 0, t] }
      else if (mode == 4) { // fluids shear at any rate
      val g = if (l.kind == NF or l.kind == MUI) mul(a, pick([ONE / 1024, ONE, R(50), R(1000)], s, 185 + p)) else a
      [0, g, 0, 0, 0, 0, 0, 0, 0] }
      else if (mode == 5 and i % 2 == 1) skew(m9((x, y) => odd(s, 200 + 90 * p + 10 * i + 3 * x + y, 8) * ONE / 800))
      else { val z = m9((x, y) => mul(a, odd(s, 200 + 90 * p + 10 * i + 3 * x + y, 8) * ONE / 16)) [z[0], z[1], 0, z[3], z[4], 0, 0, 0, 0] }
    // an occasional strong unloading step (DP: apex and disconnection)
    val u = if (l.kind == DP and mode != 5 and rnd(s, 170 + 10 * p + i, 4) == 0) madd(e, diag3(-4 * a)) else e
    mdivs(u, dt_(s))
  }
  pure def dt_(s: int): int = pick([ONE / 1000, ONE / 100, ONE / 64], s, 180)

  action init = {
    nondet kind = oneOf(KINDS)
    nondet s = oneOf(0.to(2^48))
    val l = newLaw(kind, s)
    val z = range(0, NP).foldl([], (a, p) => a.append(newState(l, s, p)))
    val r = range(0, NP).foldl([], (a, p) => a.append(newRho(l, s, p, z[p])))
    all { law' = l, seed' = s, dt' = dt_(s), init_' = z, rho0' = r, st' = z, prev' = z, rho' = r, Ls' = [], br' = [], k' = 0 }
  }
  action step = {
    val Ln = range(0, NP).foldl([], (a, p) => a.append(rate(law, seed, p, k)))
    val rn = range(0, NP).foldl([], (a, p) => a.append(mul(rho[p], ONE + mul(dt, tr(Ln[p])))))
    all { law' = law, seed' = seed, dt' = dt, init_' = init_, rho0' = rho0, prev' = st, Ls' = Ln, rho' = rn,
      st' = range(0, NP).foldl([], (a, p) => a.append(lawStep(law, st[p], Ln[p], dt, rn[p]))),
      br' = range(0, NP).foldl([], (a, p) => a.append(branch(law, st[p], Ln[p], dt, rn[p]))), k' = k + 1 }
  }
  // ---- theorems ------------------------------------------------------------
  pure def eachP(f: (int) => bool): bool = range(0, NP).foldl(true, (a, p) => a and f(p))
  val symmetricStress = eachP(p => issym(st[p].S, 64))
  // DP never outside its yield surface, plastic strain never decreases
  val dpAdmissible = law.kind != DP or eachP(p => k == 0 or br[p] == 3 or (dpYield(law, st[p].S, st[p].a) <= mul(mmaxabs(st[p].S) + R(1), ONE / 2^16) and st[p].a >= prev[p].a))
  // the elastic strain always carries the stress
  val dpElastic = law.kind != DP or eachP(p => k == 0 or br[p] == 3 or mclose(st[p].S, madd(isoS(st[p].p0 + mul(law.p[0], tr(st[p].e))), mscale(2 * dpG(law), dev(st[p].e))), mul(law.p[0], ONE / 2^30) + 64))
  // MCC admissible; hardening iff contraction; result is on the surface after yielding
  val mccAdmissible = law.kind != MCC or eachP(p => k == 0 or br[p] == 3 or {
    val f = mccF(law.p[1], press(st[p].S), st[p].a, qvm(st[p].S))
    f <= mul(sq(st[p].a), ONE / 2^20) and (br[p] == 0 or f >= -mul(sq(st[p].a), ONE / 2^20)) and (br[p] != 1 or st[p].a >= prev[p].a) and (br[p] != 2 or st[p].a <= prev[p].a) })
  // cohesionless fluids never pull
  val noTension = not(law.kind == NF or law.kind == MUI) or eachP(p => k == 0 or press(st[p].S) >= -16)
  // mu(I): friction between 0 and mu_d, and coaxial flow
  val frictionBound = law.kind != MUI or eachP(p => k == 0 or sqrt(J2(st[p].S)) <= mul(law.p[1], press(st[p].S)) + mul(press(st[p].S), ONE / 2^20) + 64)
  // viscous stress dissipates
  val dissipative = not(law.kind == NF or law.kind == MUI) or eachP(p => k == 0 or ddot(dev(st[p].S), dev(sym(Ls[p]))) >= -64)
  // rotating state and rate rotates the response
  pure def rotOf(s: int): List[int] = {
    val q = [odd(s, 300, 4), odd(s, 301, 4), odd(s, 302, 4), odd(s, 303, 4)]
    val n = sqrt((q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]) * ONE)
    rotQ(range(0, 4).foldl([], (a, i) => a.append(div(q[i] * ONE, n)))) }
  pure def rotT(R: List[int], A: List[int]): List[int] = mm(R, mm(A, transp(R)))
  val objective = k == 0 or { val R = rotOf(seed) eachP(p => {
    val z = prev[p]
    val w = lawStep(law, { ...z, S: rotT(R, z.S), e: rotT(R, z.e) }, rotT(R, Ls[p]), dt, rho[p])
    mclose(w.S, rotT(R, st[p].S), mul(stiffness(law, z) + mmaxabs(st[p].S), ONE / 2^20) + 64) and near(w.a, st[p].a, mul(st[p].a, ONE / 2^20) + 64) }) }
  // a rigid spin turns the stress of the rate-form plastic laws: no change of its invariants to first order
  val spin = k == 0 or not(law.kind == DP or law.kind == MCC) or eachP(p => br[p] == 3 or not(mmaxabs(sym(Ls[p])) <= 2 and mmaxabs(Ls[p]) > 0) or {
    val w = mul(mmaxabs(Ls[p]), dt)
    mclose(st[p].S, jaumann(prev[p].S, Ls[p], dt), mul(mul(sq(w), 30 * ONE), maxi(mmaxabs(prev[p].S), prev[p].a)) + mul(mmaxabs(prev[p].S), ONE / 2^20) + stiffness(law, prev[p]) / 2^24 + 64) })
  val inv = objective and spin and symmetricStress and dpAdmissible and dpElastic and mccAdmissible and noTension and frictionBound and dissipative
}
module gen_law_0 { import gen_law(KINDS=Set(0), NP=3).* }
module gen_law_1 { import gen_law(KINDS=Set(1), NP=3).* }
module gen_law_2 { import gen_law(KINDS=Set(2), NP=3).* }
module gen_law_3 { import gen_law(KINDS=Set(3), NP=4).* }
module gen_law_4 { import gen_law(KINDS=Set(4), NP=3).* }
module gen_law_all { import gen_law(KINDS=Set(0, 1, 2, 3, 4), NP=2).* }
