// Trace validation of element tests: single driver steps (event type 0) and
// triaxial tests (1).
module val_elem {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import hlp.mexp from "./hlp"
  import laws.* from "./laws"
  import elem.* from "./elem"
  import verdict.* from "./verdict"
  import dec.* from "./verdict"
  import lg.* from "./lg"

  // type, points, how (0 exponential, 1 linear, 2 linear by the driver's own setting), other things kept, law |
  //   dt | L | F before | F after | V0 | V | masses before | after | L after | stress | law's own stress | law state | law's own | parameters
  pure def judgeDrive(v0: V, f: List[List[int]]): V = {
    val n = f[0][1]
    val how = f[0][2]
    val dt = f[1][0]
    val l: Law = { kind: f[0][4], p: f[14] }
    val v1 = ok_(v0, "P26.untouched", 0, 0, f[0][3] == 1)
    range(0, n).foldl(v1, (v, i) => {
      val L = sub(f[2], i, 9)
      val F0 = sub(f[3], i, 9)
      val F1 = sub(f[4], i, 9)
      val tol = mmaxabs(F0) / 2^18
      val ex = deform(L, dt, false, F0)
      val li = deform(L, dt, true, F0)
      val u1 = if (how < 2) list_(v, "P26.deformation", i, F1, if (how == 1) li else ex, tol)
        // the driver's own setting: what happens instead of it is a known finding, anything else is not
        else if (mclose(F1, li, tol)) hit(v, "P26.deformation") else if (mclose(F1, ex, tol)) list_(v, "P26.linearsetting", i, F1, li, tol) else list_(v, "P26.deformation", i, F1, li, tol)
      val J = det(F1)
      val u2 = near_(u1, "P26.volume", i, 0, f[6][i], mul(J, f[5][i]), mul(abs(J) + ONE, f[5][i]) / 2^18)
      val u3 = near_(u2, "P26.mass", i, 0, f[8][i], f[7][i], 0)
      val u4 = list_(u3, "P26.gradient", i, sub(f[9], i, 9), L, 0)
      val S = sub(f[11], i, 9)
      val st: LSt = { S: S, e: ZM, a: f[13][i], p0: 0, sref: ZM }
      val noise = stiffness(l, st) * (if (l.kind == NF) l.p[2] / ONE + 1 else 1) / 2^18
      val u5 = list_(u4, "P26.law", i, sub(f[10], i, 9), S, mmaxabs(S) / 2^14 + noise + ONE / 2^10)
      near_(u5, "P26.law", i, 1, f[12][i], f[13][i], abs(f[13][i]) / 2^14 + ONE / 2^20) }) }

  // type, law, steps, mode, stride, still, records, all finite, is it the recorded finding | law | confine, V0, mass | rates | dts | initial S, F, scalar |
  //   records: L, F, S, volume, mass, scalar | the same test with every step recorded: F, S at these steps
  pure def judgeTest(v0: V, f: List[List[int]]): V = {
    val h = f[0]
    val n = h[2]
    val mode = h[3]
    val stride = h[4]
    val still = h[5] == 1
    val l: Law = { kind: h[1], p: f[1] }
    val confine = f[2][0]
    val rates = f[3]
    val dts = f[4]
    val m = n / stride
    val v1 = if (h[8] == 1) v0 else ok_(ok_(v0, "P26.records", m, h[6], h[6] == m), "P26.finite", 0, 0, h[7] == 1)
    if (h[6] != m or h[7] != 1) v1
    // the recorded finding is only asked whether the condition is met
    else if (h[8] == 1) range(1, m).foldl(v0, (v, j) => near_(v, "P26.newtoncycle", j, 0, press(sub(f[10], j, 9)), confine, abs(confine) / 200))
    else range(0, m).foldl(v1, (v, j) => {
      val i = stride * (j + 1) - 1
      val L = sub(f[8], j, 9)
      val F = sub(f[9], j, 9)
      val S = sub(f[10], j, 9)
      val quiet = still and i == 0
      val sc = mmaxabs(S) + abs(confine)
      if (quiet) list_(list_(v, "P26.still", j, S, sub(f[5], 0, 9), 0), "P26.still", j, F, IM, 0)
      else {
        val u1 = near_(v, "P26.rate", j, 0, L[8], rates[i], abs(rates[i]) / 2^20)
        val u2 = list_(u1, "P26.lateral", j, L, axialL(L[0], L[8]), 0)
        val strn = range(if (still) 1 else 0, i + 1).foldl(0, (a, q) => a + mul(rates[q], dts[q]))
        val u3 = near_(u2, "P26.axial", j, 0, F[8], exp(-strn), (n + 4) * exp(-strn) / 2^20)
        val u4 = if (mode == UNDRAINED) near_(near_(u3, "P26.undrained", j, 0, tr(L), 0, abs(rates[i]) / 2^20), "P26.undrained", j, 1, f[11][j], f[2][1], (n + 8) * f[2][1] / 2^20)
          else if (mode == MEAN) near_(u3, "P26.meanstress", j, 0, press(S), confine, sc / 500 + ONE / 16)
          else near_(near_(u3, "P26.drained", j, 0, S[0], confine, sc / 500 + ONE / 16), "P26.drained", j, 1, S[4], confine, sc / 500 + ONE / 16)
        val J = det(F)
        val u5 = near_(u4, "P26.volume", j, 1, f[11][j], mul(J, f[2][1]), (n + 8) * f[2][1] / 2^20)
        val u6 = near_(u5, "P26.mass", j, 1, f[12][j], f[2][2], 0)
        // every step is taken: the deformation follows from the last one
        val u7 = if (stride != 1) u6 else {
          val Fp = if (j == 0) IM else sub(f[9], j - 1, 9)
          list_(u6, "P26.deformation", j, F, deform(L, dts[i], false, Fp), ONE / 2^17) }
        // recording less often changes nothing
        if (stride == 1) u7 else list_(list_(u7, "P26.stride", j, F, sub(f[14], j, 9), ONE / 2^14), "P26.stride", j, S, sub(f[15], j, 9), sc / 500 + ONE / 16) } }) }
  pure def judge(ev: int): V = {
    val f = fieldsOf(EV[ev])
    if (f[0][0] == 0) judgeDrive(newV(ev), f) else judgeTest(newV(ev), f) }
  var i: int
  var out: V
  action init = all { i' = 0, out' = newV(0) }
  action step = all { i < EV.length(), i' = i + 1, out' = merge(out, judge(i)) }
}
