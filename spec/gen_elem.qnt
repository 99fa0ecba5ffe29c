// Generator: triaxial tests.  Elastic and Drucker-Prager points are driven by
// the model as well; it shows that the conditions can be met at every step.
module gen_elem {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import laws.* from "./laws"
  import elem.* from "./elem"
  import scen.rnd from "./scen"
  import scen.srnd from "./scen"
  const KIND: int

  var law: Law
  var t: Test
  var arrs: int          // 0 numbers, 1 rates are an array, 2 time steps too
  var z0: Pst
  var z: Pst
  var k: int
  pure def pick(l: List[int], s: int, i: int): int = l[rnd(s, i, l.length())]
  pure def lin(s: int, i: int, lo: int, hi: int): int = lo + (hi - lo) * rnd(s, i, 4097) / 4096
  pure def newLaw(s: int): Law = { kind: KIND, p:
    if (KIND == LE) [lin(s, 1, R(1000), R(1000000)), lin(s, 2, 0, 45 * ONE / 100)]
    else if (KIND == NF) [lin(s, 1, R(1000), R(2000000)), lin(s, 2, 0, R(5)), R(1 + rnd(s, 3, 7))]
    else if (KIND == MUI) { val mus = lin(s, 1, ONE / 5, ONE * 6 / 10)
      [mus, mus + lin(s, 2, 0, ONE / 2), lin(s, 3, ONE / 10, ONE / 2), lin(s, 4, ONE / 1000, ONE / 20), lin(s, 5, R(10000), R(1000000)), R(2650), ONE / 1000, 0] }
    else if (KIND == DP) { val m1 = lin(s, 3, ONE / 5, ONE)
      [lin(s, 1, R(50000), R(1000000)), lin(s, 2, 0, 45 * ONE / 100), m1, pick([0, ONE / 2, ONE], s, 4), pick([0, R(500)], s, 5), pick([0, m1 / 4], s, 6), pick([0, R(1000)], s, 7), R(1000)] }
    else [lin(s, 1, ONE / 10, 4 * ONE / 10), lin(s, 2, 7 * ONE / 10, 14 * ONE / 10), lin(s, 3, ONE / 10, ONE / 5), lin(s, 4, ONE / 100, ONE / 20), lin(s, 5, 3 * ONE / 2, 3 * ONE), R(1000), 0, 0, R(1), R(2650)] }
  action init = {
    nondet s = oneOf(0.to(2^48))
    nondet m = oneOf(0.to(2))
    nondet a = oneOf(0.to(2))
    val l = newLaw(s)
    val mode = if (KIND == NF or KIND == MUI) UNDRAINED else m
    val c = if (KIND == LE) pick([0, R(100), R(5000)], s, 20) else if (KIND == DP) pick([R(1000), R(5000), R(20000)], s, 20) else if (KIND == MCC) lin(s, 20, R(20000), R(200000)) else 0
    val ocr = pick([ONE, 5 * ONE / 4, 2 * ONE, 4 * ONE], s, 21)
    val ref = lin(s, 22, R(900), R(1600))
    val st: LSt = if (KIND == NF or KIND == MUI) { S: ZM, e: ZM, a: ref, p0: 0, sref: ZM }
      else if (KIND == MCC) { S: isoS(c), e: ZM, a: mul(c, ocr), p0: 0, sref: isoS(c) } else { S: isoS(c), e: ZM, a: 0, p0: if (KIND == DP) c else 0, sref: ZM }
    val rho = if (KIND == NF or KIND == MUI) mul(ref, ONE + ONE / 50) else if (KIND == DP) 11 * l.p[7] / 10 else if (KIND == MCC) div(l.p[9], vSl(l, st.a, c)) else R(1000)
    val n = pick([6, 12], s, 23)
    // Cam clay at constant mean stress: the apparatus' damped Newton iteration can cycle across
    // the yield kink when unloading (a known finding, replayed as one history): compression only
    val soft = KIND == MCC and mode == MEAN
    val d = pick([ONE / 1000, ONE / 128, ONE / 64], s, 24)
    val e = (if (KIND == DP or KIND == MCC) pick([ONE / 2000, ONE / 1000], s, 25) else pick([ONE / 1000, ONE / 100], s, 25)) * (if (rnd(s, 26, 4) == 0 and not(soft)) -1 else 1)
    val r = div(e, d)
    // arrays: pauses, reversals and changes of pace
    val tt = { mode: mode, confine: c, stride: pick([1, 1, 2, 3], s, 27), still: rnd(s, 28, 2) == 0,
      rates: range(0, n).foldl([], (q, i) => q.append(if (a == 0) r else if (rnd(s, 29, 2) == 0 and not(soft)) (if (i < n / 2) r else -r) else r * (2 + rnd(s, 30 + i, 5)) / 6)),
      dts: range(0, n).foldl([], (q, i) => q.append(if (a < 2) d else d * (4 - rnd(s, 50 + i, 3)) / 4)) }
    val zz = { s: st, F: IM, rho: rho, L: ZM }
    all { law' = l, t' = tt, arrs' = a, z0' = zz, z' = zz, k' = 0 }
  }
  // the model keeps up for the laws whose step is cheap
  action step = all { law' = law, t' = t, arrs' = arrs, z0' = z0, k' = k + 1,
    z' = if ((KIND == LE or KIND == DP) and k < t.rates.length()) advance(law, t, z, k) else z }
  val moved = k > 0 and (KIND == LE or KIND == DP) and not(k == 1 and t.still) and k <= t.rates.length()
  val sc = mmaxabs(z.s.S) + R(1)
  val met = not(moved) or (if (t.mode == UNDRAINED) near(det(z.F), ONE, ONE / 2^30)
    else near(if (t.mode == MEAN) press(z.s.S) else z.s.S[0], t.confine, sc / 2^16 + law.p[0] / 2^26))
  val axial = not(moved) or near(z.F[8], exp(-range(if (t.still) 1 else 0, k).foldl(0, (a, i) => a + mul(t.rates[i], t.dts[i]))), ONE / 2^30)
  val balance = near(mul(z.rho, det(z.F)), z0.rho, z0.rho / 2^24)
  val inv = met and axial and balance
}
module gen_elem_0 { import gen_elem(KIND=0).* }
module gen_elem_1 { import gen_elem(KIND=1).* }
module gen_elem_2 { import gen_elem(KIND=2).* }
module gen_elem_3 { import gen_elem(KIND=3).* }
module gen_elem_4 { import gen_elem(KIND=4).* }
