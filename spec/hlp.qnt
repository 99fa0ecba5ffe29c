// The continuum-mechanics definitions behind the helper functions
// (compression positive; scalars and tensors as in fx and tens).
module hlp {
  import fx.* from "./fx"
  import tens.* from "./tens"

  pure val PI: int = 884279719003555
  // exp of a tensor: Taylor series of the 2^-8th part, squared back
  pure def mexp(a: List[int]): List[int] = {
    val x = mdivs(a, R(256))
    val t = range(1, 11).foldl((IM, IM), (acc, k) => { val w = mdivs(mm(acc._2, x), R(k)) (madd(acc._1, w), w) })._1
    range(0, 8).foldl(t, (acc, i) => mm(acc, acc)) }
  pure def jaumann(t: List[int], w: List[int], dt: int): List[int] = madd(t, mscale(dt, msub(mm(w, t), mm(t, w))))
  pure def kinetic(m: int, v: List[int]): int = mul(m, dot(v, v)) / 2
  pure def small(F: List[int]): List[int] = msub(sym(F), IM)
  pure def eqStrain(e: List[int]): int = { val d = dev(e) sqrt(2 * ddot(d, d) / 3) }
  pure def gammaS(e: List[int]): int = { val d = dev(e) sqrt(ddot(d, d) / 2) }
  pure def tau(s: List[int]): int = sqrt(J2(s))
  pure def phiToE(phi: int): int = div(ONE, phi) - ONE
  pure def eToPhi(e: int): int = div(ONE, ONE + e)
  pure def phiNext(L: List[int], phi: int, dt: int): int = div(phi, ONE - mul(tr(L), dt))
  pure def inertial(p: int, g: int, d: int, rho: int): int = div(mul(g, d), sqrt(div(p, rho)))
  // stress of a slope: vertical, k0 times that horizontally, and the shear of the slope
  pure def slopeStress(g: int, a: int, k0: int, rho: int, z: int): List[int] = {
    val w = cosSin(a)
    val s = mul(mul(rho, g), z)
    val v = mul(s, w.c)
    val t = mul(s, w.s)
    [mul(k0, v), 0, t, 0, mul(k0, v), 0, t, 0, v] }
  pure def triaxial(p: int, q: int): List[int] = [p - q / 3, 0, 0, 0, p - q / 3, 0, 0, 0, p + 2 * q / 3]
  pure def rot2(a: int, v: List[int]): List[int] = { val w = cosSin(a) [mul(w.c, v[0]) - mul(w.s, v[1]), mul(w.s, v[0]) + mul(w.c, v[1])] }
  pure def crossM(w: List[int]): List[int] = [0, -w[2], w[1], w[2], 0, -w[0], -w[1], w[0], 0]
}
