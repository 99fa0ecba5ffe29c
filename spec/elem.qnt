// Element tests: a point driven by a velocity gradient, and the boundary
// conditions of a triaxial apparatus (compression positive, axis 3 axial).
module elem {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import hlp.mexp from "./hlp"
  import laws.* from "./laws"

  pure def deform(L: List[int], dt: int, linear: bool, F: List[int]): List[int] =
    if (linear) mm(msub(IM, mscale(dt, L)), F) else mm(mexp(mscale(-dt, L)), F)
  pure val DRAINED: int = 0
  pure val MEAN: int = 1
  pure val UNDRAINED: int = 2
  // confine: lateral or mean stress; per step its rate and time step; steps between records; does the first step leave things alone
  type Test = { mode: int, confine: int, rates: List[int], dts: List[int], stride: int, still: bool }
  type Pst = { s: LSt, F: List[int], rho: int, L: List[int] }
  pure def axialL(x: int, r: int): List[int] = [x, 0, 0, 0, x, 0, 0, 0, r]
  pure def stress(l: Law, z: Pst, L: List[int], dt: int): LSt = lawStep(l, z.s, L, dt, z.rho)
  // the condition that the lateral rate x has to meet
  pure def resid(l: Law, t: Test, z: Pst, i: int, x: int): int = {
    val S = stress(l, z, axialL(x, t.rates[i]), t.dts[i]).S
    if (t.mode == MEAN) press(S) - t.confine else S[0] - t.confine }
  // the stress grows with the lateral rate: bisection
  pure def lateral(l: Law, t: Test, z: Pst, i: int): int =
    if (t.mode == UNDRAINED) -t.rates[i] / 2
    else {
      val b = 4 * abs(t.rates[i]) + ONE / 2^20
      val r = range(0, 46).foldl((-b, b), (acc, k) => { val x = (acc._1 + acc._2) / 2 if (resid(l, t, z, i, x) < 0) (x, acc._2) else (acc._1, x) })
      (r._1 + r._2) / 2 }
  pure def advance(l: Law, t: Test, z: Pst, i: int): Pst =
    if (i == 0 and t.still) z
    else {
      val L = axialL(lateral(l, t, z, i), t.rates[i])
      val F1 = deform(L, t.dts[i], false, z.F)
      { s: stress(l, z, L, t.dts[i]), F: F1, L: L, rho: div(mul(z.rho, det(z.F)), det(F1)) } }
}
