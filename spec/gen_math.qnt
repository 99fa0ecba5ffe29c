// Generator: tensors, vectors, quaternions and scalars the helpers are asked about.
module gen_math {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import hlp.* from "./hlp"
  import scen.rnd from "./scen"
  import scen.srnd from "./scen"
  import scen.odd from "./scen"
  pure val N: int = 4
  var A: List[List[int]]
  var Bm: List[List[int]]
  var F: List[List[int]]
  var P: List[int]
  var V: List[List[int]]
  var W: List[List[int]]
  var Qn: List[List[int]]
  var S: List[List[int]]     // per item: phi, e, density, depth, shear rate, number to invert, angle
  var par: List[int]         // dt, k0, slope in degrees, gravity, grain size, grain density

  // what a tensor looks like: 0 any, 1 zero, 2 isotropic, 3 almost isotropic, 4 diagonal, 5 symmetric, 6 skew, 7 rank one, 8 uniaxial
  pure def shape(k: int, s: int, u: int): List[int] = {
    val z = range(0, 9).foldl([], (l, i) => l.append(odd(s, 10 + i, 200) * u / 256))
    if (k == 1) ZM
    else if (k == 2) diag3(z[0])
    else if (k == 3) madd(diag3(z[0]), mdivs(z, R(2048)))
    else if (k == 4) [z[0], 0, 0, 0, z[4], 0, 0, 0, z[8]]
    else if (k == 5) sym(z)
    else if (k == 6) skew(z)
    else if (k == 7) mdivs(outer(mvOf(z, 0), mvOf(z, 3)), maxi(u, 1))
    else if (k == 8) [z[0], 0, 0, 0, 0, 0, 0, 0, 0]
    else z }
  pure def mvOf(z: List[int], o: int): List[int] = [z[o], z[o + 1], z[o + 2]]
  pure val US: List[int] = [ONE, ONE / 64, ONE / 512, 64 * ONE, 4096 * ONE, 16384 * ONE]
  pure def tensor(s: int, i: int): List[int] = { val q = rnd(s, 2 * i, 2^40) shape(rnd(q, 1, 9), q, US[rnd(q, 2, US.length())]) }
  // deformation gradients: identity, a rotation, a stretch, both, a simple shear, singular, any
  pure def rotation(s: int): List[int] = {
    val a = srnd(s, 61, 200) * ONE / 64
    val b = srnd(s, 62, 200) * ONE / 64
    val ra = rotZ(a)
    val rb = rotZ(b)
    mm(ra, [rb[4], 0, rb[3], 0, ONE, 0, rb[1], 0, rb[0]]) }
  pure def extreme(s: int, i: int): int = [ONE / 40, ONE / 14, ONE / 5, ONE, 3 * ONE, 11 * ONE][rnd(s, i, 6)]
  pure def deform(k: int, s: int): List[int] = {
    val r = rotation(s)
    val u = [(8 + rnd(s, 64, 56)) * ONE / 32, 0, 0, 0, (8 + rnd(s, 65, 56)) * ONE / 32, 0, 0, 0, (8 + rnd(s, 66, 56)) * ONE / 32]
    if (k == 0) IM
    else if (k == 1) r
    else if (k == 2) u
    else if (k == 3) mm(r, u)
    else if (k == 4) [ONE, srnd(s, 67, 40) * ONE / 32, 0, 0, ONE, 0, 0, 0, ONE]
    else if (k == 5) (if (rnd(s, 70, 2) == 0) [u[0], 0, 0, u[0], 0, 0, 0, 0, ONE] else ZM)
    else if (k == 6) mm(mm(r, u), transp(rotation(s + 1)))
    else if (k == 8) diag3(u[0])
    // strongly stretched or squeezed, evenly or not
    else if (k == 9) mm(r, [extreme(s, 90), 0, 0, 0, extreme(s, 91), 0, 0, 0, extreme(s, 92)])
    else if (k == 10) mscale([ONE / 256, ONE / 100, ONE / 24, 8 * ONE, 64 * ONE][rnd(s, 93, 5)], mm(r, u))
    else madd(IM, range(0, 9).foldl([], (l, i) => l.append(odd(s, 80 + i, 30) * ONE / 256))) }
  action init = {
    nondet s = oneOf(0.to(2^48))
    all {
      A' = range(0, N).foldl([], (l, i) => l.append(tensor(s, 100 + i))),
      Bm' = range(0, N).foldl([], (l, i) => l.append(tensor(s, 200 + i))),
      F' = range(0, N).foldl([], (l, i) => l.append(deform(rnd(s, 300 + i, 11), rnd(s, 310 + i, 2^40)))),
      P' = range(0, N).foldl([], (l, i) => l.append(srnd(s, 320 + i, 40) * US[rnd(s, 330 + i, US.length())] / 16)),
      V' = range(0, N).foldl([], (l, i) => l.append(if (rnd(s, 340 + i, 6) == 0) ZV else range(0, 3).foldl([], (m, d) => m.append(srnd(s, 350 + 3 * i + d, 200) * ONE / 64)))),
      W' = range(0, N).foldl([], (l, i) => l.append(if (rnd(s, 370 + i, 6) == 0) ZV else range(0, 3).foldl([], (m, d) => m.append(srnd(s, 380 + 3 * i + d, 200) * ONE / [64, 4, 1][rnd(s, 375 + i, 3)])))),
      Qn' = range(0, N).foldl([], (l, i) => l.append(if (rnd(s, 400 + i, 5) == 0) [ONE, 0, 0, 0] else range(0, 4).foldl([], (m, d) => m.append(odd(s, 410 + 4 * i + d, 100) * ONE / 64)))),
      S' = range(0, N).foldl([], (l, i) => l.append([
        (1 + rnd(s, 440 + i, 64)) * ONE / 64, rnd(s, 450 + i, 200) * ONE / 64, (1 + rnd(s, 460 + i, 300)) * 8 * ONE, rnd(s, 470 + i, 200) * ONE / 16,
        rnd(s, 480 + i, 200) * ONE / 16, [odd(s, 490 + i, 100) * ONE / 16, odd(s, 490 + i, 100) * ONE / 2^16, 0, odd(s, 490 + i, 100) * 64 * ONE][rnd(s, 500 + i, 4)],
        srnd(s, 510 + i, 300) * ONE / 32])),
      par' = [[ONE / 1024, ONE / 64, ONE / 4, ONE][rnd(s, 600, 4)], rnd(s, 601, 9) * ONE / 8, [0, 0, rnd(s, 602, 60) * ONE][rnd(s, 603, 3)], (1 + rnd(s, 604, 160)) * ONE / 16,
        (1 + rnd(s, 605, 64)) * ONE / 1024, (1 + rnd(s, 606, 40)) * 64 * ONE] }
  }
  action step = all { A' = A, Bm' = Bm, F' = F, P' = P, V' = V, W' = W, Qn' = Qn, S' = S, par' = par }

  // ---- theorems --------------------------------------------------------------
  pure def T(a: List[int]): int = 64 + mmaxabs(a) / 2^40
  val parts = range(0, N).foldl(true, (ok, i) => ok and {
    val a = A[i]
    mclose(madd(sym(a), skew(a)), a, 2) and abs(ddot(sym(a), skew(a))) <= mul(mmaxabs(a), 64) + 64 and near(tr(dev(a)), 0, 4) and near(press(dev(a)), 0, 4) })
  val invariants = range(0, N).foldl(true, (ok, i) => ok and {
    val p = P[i]
    val q = abs(Bm[i][0])
    val t = triaxial(p, q)
    near(press(t), p, 4) and near(sq(qvm(t)), sq(q), 64 + sq(q) / 2^20 + abs(p) / 2^20) })
  val hencky = range(0, N).foldl(true, (ok, i) => ok and {
    val e = sym(mdivs(V[i].concat(V[(i + 1) % N]).concat(V[(i + 2) % N]), R(8)))
    // exp of a strain and of its negative are inverse to each other; the determinant is the exponential of the trace
    mclose(mm(mexp(e), mexp(mscale(-ONE, e))), IM, ONE / 2^30) and near(det(mexp(e)), exp(tr(e)), ONE / 2^28) })
  val spin = range(0, N).foldl(true, (ok, i) => ok and {
    val w = skew(A[i])
    mclose(jaumann(diag3(P[i]), w, ONE / 16), diag3(P[i]), 4 + mmaxabs(w) / 2^10) })
  val voids = range(0, N).foldl(true, (ok, i) => ok and near(eToPhi(phiToE(S[i][0])), S[i][0], 64))
  val inv = parts and invariants and hencky and spin and voids
}
