// Trace validation of constitutive updates recorded from the real laws.
// Event types (f[0][0]): 0 loading history, 1 initial state, 2 critical time
// step, 3 pair of histories, the second one rotated.
module val_law {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import laws.* from "./laws"
  import verdict.* from "./verdict"
  import dec.* from "./verdict"
  import lg.* from "./lg"

  pure val REL: int = ONE / 40000
  pure def close_(v: V, c: str, a: int, got: List[int], want: List[int], tol: int): V = list_(v, c, a, got, want, tol)

  // one recorded update of one point
  type Up = { rho: int, L: List[int], S0: List[int], S1: List[int], e0: List[int], e1: List[int], a0: int, a1: int, p0: int, other: int }
  pure def up(f: List[List[int]], o: int, i: int): Up = {
    rho: f[o][i], L: sub(f[o + 1], i, 9), S0: sub(f[o + 2], i, 9), S1: sub(f[o + 3], i, 9), e0: sub(f[o + 4], i, 9), e1: sub(f[o + 5], i, 9),
    a0: f[o + 6][i], a1: f[o + 7][i], p0: f[o + 8][i], other: f[o + 9][i] }
  pure def stOf(u: Up): LSt = { S: u.S0, e: u.e0, a: u.a0, p0: u.p0, sref: ZM }

  pure def judgeLE(v: V, l: Law, u: Up, dt: int, id: int): V = {
    val w = leStep(l, stOf(u), u.L, dt)
    val sc = maxi(mmaxabs(u.S0), mul(l.p[0] * 3, mul(dt, mmaxabs(u.L))))
    close_(v, "P18.stress", id, u.S1, w.S, mul(sc, REL) + 64)
  }
  pure def judgeNF(v: V, l: Law, u: Up, id: int): V = {
    val ratio = div(u.rho, u.a0)
    val p = nfPressure(l, ratio)
    val ep = mul(mul(l.p[0], l.p[2]), maxi(ONE, pow(ratio, l.p[2]))) / 2^20
    val vs = mscale(2 * l.p[1], dev(sym(u.L)))
    val v1 = near_(v, "P21.pressure", id, 0, press(u.S1), p, ep + mul(mmaxabs(vs), REL))
    val v2 = close_(v1, "P21.viscous", id, msub(u.S1, isoS(press(u.S1))), vs, ep + mul(mul(l.p[1], mmaxabs(u.L)), REL) + 64)
    val v3_ = ge_(v2, "P21.notension", id, 0, press(u.S1), 0, mul(mul(l.p[1], mmaxabs(u.L)), REL) + 64)
    ge_(v3_, "P21.dissipates", id, 0, ddot(dev(u.S1), dev(sym(u.L))), 0, mul(ep + mul(mmaxabs(vs), REL), mmaxabs(u.L)) * 9)
  }
  pure def judgeMUI(v: V, l: Law, u: Up, id: int): V = {
    val ratio = div(u.rho, u.a0)
    val w = muiStep(l, stOf(u), u.L, u.rho)
    val mud = l.p[1]
    val tol = mul(l.p[4], maxi(ONE, ratio)) / 2^20 + mul(mmaxabs(w.S), REL) + 64
    // at the reference density itself either side is right
    val edge = near(ratio, ONE, ONE / 2^20)
    if (edge) v
    else if (ratio < ONE) close_(v, "P22.vacuum", id, u.S1, ZM, 0)
    else {
      val p = press(u.S1)
      val v1 = near_(v, "P22.pressure", id, 0, p, press(w.S), tol)
      val v2 = close_(v1, "P22.shear", id, dev(u.S1), dev(w.S), tol * 2)
      val v3_ = le_(v2, "P22.frictionbound", id, 0, sqrt(J2(u.S1)), mul(mud, p), tol * 2)
      // fast enough shear mobilises at least the static friction
      val gd2 = 2 * ddot(dev(sym(u.L)), dev(sym(u.L)))
      val v4 = if (gd2 < 10000 * sq(l.p[6]) or gd2 < ONE / 1000) v3_ else ge_(v3_, "P22.static", id, 0, sqrt(J2(u.S1)), mul(mul(l.p[0], p), ONE - ONE / 5000), tol * 2)
      val v5 = ge_(v4, "P22.notension", id, 0, p, 0, tol)
      ge_(v5, "P22.dissipates", id, 0, ddot(dev(u.S1), dev(sym(u.L))), 0, mul(tol, mmaxabs(u.L)) * 9)
    }
  }
  pure def judgeDP(v: V, l: Law, u: Up, dt: int, id: int): V = {
    val z = stOf(u)
    val K = l.p[0]
    val G = dpG(l)
    val et = dpTrial(l, z, u.L, dt)
    val sc = maxi(maxi(mmaxabs(u.S0), abs(u.p0)), 4 * mul(K + G, maxi(mmaxabs(et), mmaxabs(u.e0))))
    // the law floors sqrt(J2) at 1e-6
    val tS = mul(sc, REL) + mul(dpCoh(l, u.a0), REL) + ONE / 100000
    val tE = div(tS, mini(K, 2 * G)) * 2 + 16
    val tA = div(tS, G) * 8 + mul(u.a0, REL) + 16
    if (near(u.rho, l.p[7], l.p[7] / 2^18)) v else {
      val b = dpBranch(l, z, u.L, dt, u.rho)
      val w = dpStep(l, z, u.L, dt, u.rho)
      val nm = if (b == 3) "P19.vacuum" else if (b == 0) "P19.elastic" else if (b == 1) "P19.cone" else "P19.apex"
      val v1 = close_(v, nm, id, u.S1, w.S, tS)
      val v2 = close_(v1, "P19.strain", id, u.e1, w.e, tE)
      val v3_ = near_(v2, "P19.hardening", id, 0, u.a1, w.a, tA)
      val v4 = ge_(v3_, "P19.monotone", id, 0, u.a1, u.a0, 0)
      if (b == 3) v4 else {
        val v5 = le_(v4, "P19.admissible", id, 0, dpYield(l, u.S1, u.a1), 0, tS * 2 + mul(l.p[6], tA))
        val v6 = if (b == 0) v5 else near_(v5, "P19.onsurface", id, 0, maxi(dpYield(l, u.S1, u.a1), -sc), 0, tS * 4 + mul(l.p[6], tA))
        val v7 = close_(v6, "P19.carries", id, u.S1, madd(isoS(u.p0 + mul(K, tr(u.e1))), mscale(2 * G, dev(u.e1))), tS * 2)
        // plastic flow: plastic volume change is the dilatancy times the plastic shear
        if (b != 1) v7 else {
          val dg = sqrt(2 * ddot(dev(msub(et, u.e1)), dev(msub(et, u.e1))))
          near_(v7, "P19.flow", id, 0, -tr(msub(et, u.e1)), mul(l.p[5], dg), tE * 20) }
      }
    }
  }
  pure def judgeMCC(v: V, l: Law, u: Up, dt: int, id: int): V = {
    val z = stOf(u)
    val pm = press(jaumann(u.S0, u.L, dt))
    // close to the disconnection density either is right; the law clamps the pressure near zero
    if (near(div(l.p[9], u.rho), l.p[4], l.p[4] / 2^17)) v
    else if (not(mccConnected(l, u.rho))) {
      val v1 = close_(v, "P20.vacuum", id, u.S1, ZM, 0)
      near_(v1, "P20.hardening", id, 0, u.a1, u.a0, 0)
    } else if (pm < 2 * l.p[8]) v else {
      val t = mccTrial(l, z, u.L, dt)
      val sc = maxi(u.a0, maxi(mmaxabs(u.S0), maxi(t.p, t.q)))
      val tS = sc / 5000
      val ft = mccF(l.p[1], t.p, u.a0, t.q)
      val f1 = mccF(l.p[1], press(u.S1), u.a1, qvm(u.S1))
      val b = mccBranch(l, z, u.L, dt, u.rho)
      val w = mccStep(l, z, u.L, dt, u.rho)
      val nm = if (b == 0) "P20.elastic" else if (b == 1) "P20.wet" else "P20.dry"
      val v1 = close_(v, nm, id, u.S1, w.S, tS)
      val v2 = near_(v1, "P20.hardening", id, 0, u.a1, w.a, tS)
      val v3_ = le_(v2, "P20.admissible", id, 0, div(f1, u.a1), 0, tS)
      val v4 = if (b == 0) v3_ else near_(v3_, "P20.onsurface", id, 0, div(f1, u.a1), 0, tS)
      // hardening only when the plastic volume contracts; clearly elastic or clearly plastic states only
      val v5 = if (b == 1) ge_(v4, "P20.contracts", id, 0, u.a1, u.a0, sc / 50000)
        else if (b == 2) le_(v4, "P20.dilates", id, 0, u.a1, u.a0, sc / 50000) else v4
      val v6 = if (b == 0 and ft < -mul(sc, sc) / 1000) near_(v5, "P20.nohardening", id, 0, u.a1, u.a0, 0) else v5
      // bi-logarithmic elasticity: the pressure responds to the volumetric strain alone while elastic
      if (b != 0) v6 else near_(v6, "P20.kappa", id, 0, mul(l.p[3], ln(div(press(u.S1), pm))), mul(dt, tr(sym(u.L))), ONE / 2^19)
    }
  }
  pure def judgeUp(v: V, l: Law, u: Up, dt: int, id: int): V = {
    val v0 = ok_(v, "P23.onlystress", id, u.other, u.other == 0)
    val v1 = finite_(v0, "ANY.finite", id, u.S1)
    val v2 = if (not(allFinite(u.S1)) or not(finite(u.a1))) v1
      else if (l.kind == LE) judgeLE(v1, l, u, dt, id)
      else if (l.kind == NF) judgeNF(v1, l, u, id)
      else if (l.kind == MUI) judgeMUI(v1, l, u, id)
      else if (l.kind == DP) judgeDP(v1, l, u, dt, id)
      else judgeMCC(v1, l, u, dt, id)
    val v3_ = ok_(v2, "P23.symmetric", id, 0, issym(u.S1, mul(mmaxabs(u.S1), REL) + 64 + (if (l.kind == LE) mmaxabs(msub(u.S0, transp(u.S0))) else 0)))
    // rigid spin of the rate-form plastic laws, inside the yield surface
    val spin = (l.kind == DP or l.kind == MCC) and mmaxabs(sym(u.L)) * 1000 < mmaxabs(u.L)
    val br = branch(l, stOf(u), u.L, dt, u.rho)
    if (not(spin) or br != 0 or (l.kind == MCC and press(u.S0) < 2 * l.p[8])) v3_ else {
      val w = mul(mmaxabs(u.L), dt)
      val sc = maxi(mmaxabs(u.S0), if (l.kind == MCC) u.a0 else 0)
      val stf = maxi(stiffness(l, stOf(u)), if (l.kind == DP) dpG(l) * 2 else 0)
      val tol = mul(mul(sq(w), 30 * ONE) + ONE / 2000, sc) + stf / 2^18
      // the first-order turn of the deviator; integrators may differ in second order
      val tolT = mul(6 * sq(w), mmaxabs(dev(u.S0))) + sc / 2^17 + mul(stf, w) / 2^18 + mul(stf, mmaxabs(u.e0)) / 2^18 + ONE / 1000
      val v4 = close_(v3_, "P23.spin", id, u.S1, jaumann(u.S0, u.L, dt), tolT)
      val v5 = near_(v4, "P23.spinp", id, 0, press(u.S1), press(u.S0), tol)
      near_(v5, "P23.spinq", id, 0, qvm(u.S1), qvm(u.S0), tol * 2)
    }
  }
  pure val NUF: int = 10
  pure def judgeHist(v0: V, l: Law, h: List[int], f: List[List[int]]): V =
    range(0, h[4]).foldl(v0, (v, s) => range(0, h[3]).foldl(v, (w, i) => judgeUp(w, l, up(f, 2 + NUF * s, i), h[2], 100 * s + i)))

  // ---- initial states: fields mode, p, q, ocr, rhoIn, S, rho, a, S after a zero-rate update, a after it
  pure def triS(p: int, q: int): List[int] = [p - q / 3, 0, 0, 0, p - q / 3, 0, 0, 0, p + 2 * q / 3]
  pure def judgeInit(v0: V, l: Law, h: List[int], f: List[List[int]]): V = {
    val mode = f[2][0]
    range(0, h[3]).foldl(v0, (v, i) => {
      val p = f[3][i]
      val q = f[4][i]
      val ocr = f[5][i]
      val rin = f[6][i]
      val S = sub(f[7], i, 9)
      val rho = f[8][i]
      val a = f[9][i]
      val S1 = sub(f[10], i, 9)
      val a1 = f[11][i]
      val tS = maxi(mmaxabs(S), p) / 10000 + 64
      if (l.kind == MCC) {
        val pc = if (mode == 1) p + div(sq(q), mul(sq(l.p[1]), p)) else if (mode == 3) p else mul(p, ocr)
        val qy = if (mode == 1) q else if (mode >= 2) 0 else { val m = mul(mul(l.p[1], p), sqrt(maxi(0, div(pc, p) - ONE))) mini(q, m) }
        // the inverse of the swelling line amplifies rounding by 1 / (lambda - kappa)
        val tpc = mul(pc, maxi(ONE / 10000, div(ONE, l.p[2] - l.p[3]) / 2^18))
        // next to the tip of the ellipse the root amplifies rounding
        val tq = tS + mul(mul(l.p[1], p), sqrt(ONE / 500000))
        val v1 = near_(v, if (mode == 0) "P24.ocr" else if (mode == 1) "P24.stress" else if (mode == 2) "P24.density" else "P24.points", i, 0, a, pc, tpc)
        val v2 = list_(v1, "P24.stressout", i, S, triS(p, qy), if (mode == 0) tq else tS)
        val v3_ = if (mode == 3) v2 else near_(v2, "P24.densityout", i, 0, rho, div(l.p[9], vSl(l, pc, p)), rho / 10000)
        val v4 = le_(v3_, "P24.admissible", i, 0, div(mccF(l.p[1], press(S), a, qvm(S)), a), 0, tS + mul(tq, ONE / 4))
        val v5 = list_(v4, "P24.kept", i, S1, S, tS * 3 + tpc)
        near_(v5, "P24.keptstate", i, 0, a1, a, tS * 3)
      } else if (l.kind == NF) {
        val v1 = near_(v, "P24.reference", i, 0, nfPressure(l, div(rin, a)), p, mul(l.p[0], l.p[2]) / 2^20 + p / 10000)
        list_(v1, "P24.kept", i, S1, isoS(p), mul(l.p[0], l.p[2]) / 2^20 + p / 10000)
      } else if (l.kind == MUI) {
        val v1 = near_(v, "P24.reference", i, 0, mul(l.p[4], div(rin, a) - ONE), p, l.p[4] / 2^20 + p / 10000)
        list_(v1, "P24.kept", i, S1, isoS(p), l.p[4] / 2^20 + p / 10000)
      } else if (l.kind == DP) {
        val v1 = near_(v, "P24.reference", i, 0, a, press(S), tS)
        val v2 = list_(v1, "P24.kept", i, S1, isoS(p), tS + ONE / 100000)
        near_(v2, "P24.keptstate", i, 0, a1, 0, ONE / 100000)
      } else list_(list_(v, "P24.reference", i, sub(f[12], i, 9), S, tS / 10), "P24.kept", i, S1, S, tS / 10)
    })
  }
  // ---- critical time step: alpha, h, result; densities; speeds
  pure def judgeDt(v: V, l: Law, h: List[int], f: List[List[int]]): V = {
    val w = dtCrit(l, f[3], f[4], f[2][0], f[2][1])
    near_(v, "P25.dtcrit", l.kind, 0, f[2][2], w, mul(w, ONE / 5000) + 4)
  }
  // ---- pair: R; per step S, Srotated, a, arotated, stiffness scale from the first run
  pure def judgeRot(v0: V, l: Law, h: List[int], f: List[List[int]]): V = {
    val Rm = f[2]
    range(0, h[4]).foldl(v0, (v, s) => range(0, h[3]).foldl(v, (w, i) => {
      val o = 3 + 4 * s
      val S = sub(f[o], i, 9)
      val T = sub(f[o + 1], i, 9)
      val a = f[o + 2][i]
      val sc = maxi(mmaxabs(S), maxi(if (l.kind == MCC) a else 0, l.p[0] / (if (l.kind == MCC) 2^30 else 2^8)))
      val tol = sc / 4000 + (if (l.kind == MUI) l.p[4] / 2^18 else if (l.kind == NF) mul(l.p[0], l.p[2]) / 2^18 else 0) + 64
      val w1 = list_(w, "P23.rotation", 100 * s + i, T, mm(Rm, mm(S, transp(Rm))), tol)
      near_(w1, "P23.rotatedstate", 100 * s + i, 0, f[o + 3][i], a, (if (l.kind == MCC) tol else a / 1000 + ONE / 2^13))
    }))
  }

  pure def judge(ev: int): V = {
    val f = fieldsOf(EV[ev])
    val h = f[0]
    val l: Law = { kind: h[1], p: f[1] }
    val v = newV(ev)
    if (h[0] == 0) judgeHist(v, l, h, f)
    else if (h[0] == 1) judgeInit(v, l, h, f)
    else if (h[0] == 2) judgeDt(v, l, h, f)
    else judgeRot(v, l, h, f)
  }
  var i: int
  var out: V
  action init = all { i' = 0, out' = newV(0) }
  action step = all { i < EV.length(), i' = i + 1, out' = merge(out, judge(i)) }
}
