// Generator of initial states: what the user gives (pressure, shear stress,
// overconsolidation ratio, density) and the state the specification derives.
module gen_init {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import laws.* from "./laws"
  import scen.rnd from "./scen"
  import scen.odd from "./scen"
  import gen_law(KINDS=Set(0), NP=1) as G from "./gen_law"
  const KINDS: Set[int]
  const NP: int

  // mode 0 ocr, 1 stress on the yield surface, 2 density, 3 from material points (MCC); other laws: 0 with pressure, 1 without, 3 from points
  type Ini = { mode: int, p: List[int], q: List[int], ocr: List[int], rho: List[int], S: List[List[int]], vel: List[List[int]], alpha: int, h: int, dim: int }
  var law: Law
  var ini: Ini
  var seed: int
  var st: List[LSt]
  var kept: List[LSt]

  pure def lst(f: (int) => int): List[int] = range(0, NP).foldl([], (l, i) => l.append(f(i)))
  pure def mkIni(l: Law, s: int, mode: int): Ini = {
    // below the reference pressure only strongly overconsolidated soil hangs together
    def ocr1(i) = G::pick([R(10), R(20), R(40)], s, 73 + i)
    def low(i) = l.kind == MCC and (mode == 0 or mode == 2) and rnd(s, 27 + i, 2) == 0 and {
      val x = G::lin(s, 70 + i, R(150), R(1000))
      vSl(l, mul(x, ocr1(i)), x) < mul(l.p[4], 98 * ONE / 100) }
    def ocr_(i) = if (low(i)) ocr1(i) else G::pick([ONE, 9 * ONE / 8, 3 * ONE / 2, 3 * ONE, 6 * ONE], s, 30 + i)
    val p = lst(i => if (l.kind == DP) G::pick([0, R(100), R(7000)], s, 20 + i) else if (l.kind == MCC) (if (low(i)) G::lin(s, 70 + i, R(150), R(1000)) else G::lin(s, 20 + i, R(1500), R(400000)))
      else if (mode == 1) 0 else G::lin(s, 20 + i, 0, l.p[0] / 20))
    val ocr = lst(i => ocr_(i))
    // some shear stresses lie outside the yield surface
    val q = range(0, NP).foldl([], (a, i) => a.append(mul(mul(p[i], if (l.kind == MCC) l.p[1] else ONE), rnd(s, 40 + i, 9) * ONE / 8)))
    val rho = range(0, NP).foldl([], (a, i) => a.append(if (l.kind == MCC and mode == 2) div(l.p[9], vSl(l, mul(p[i], ocr[i]), p[i])) else G::lin(s, 50 + i, R(900), R(2000))))
    { mode: mode, p: p, q: q, ocr: ocr, rho: rho,
      S: range(0, NP).foldl([], (a, i) => a.append(if (l.kind == LE) sym(G::devOf(s, 60 + 9 * i, R(1000))) else diag3(p[i]))),
      vel: range(0, NP).foldl([], (a, i) => a.append([odd(s, 90 + 3 * i, 20) * ONE / 4, odd(s, 91 + 3 * i, 20) * ONE / 4, odd(s, 92 + 3 * i, 20) * ONE / 4])),
      alpha: G::pick([ONE / 2, ONE / 10, ONE], s, 15), h: G::pick([ONE / 10, ONE, 3 * ONE / 8], s, 16), dim: 2 + rnd(s, 17, 2) }
  }
  pure def create(l: Law, z: Ini, i: int): LSt =
    if (l.kind == MCC) {
      val pc = if (z.mode == 1) z.p[i] + div(sq(z.q[i]), mul(sq(l.p[1]), z.p[i])) else if (z.mode == 3) z.p[i] else mul(z.p[i], z.ocr[i])
      val q = if (z.mode == 1) z.q[i] else if (z.mode >= 2) 0 else mini(z.q[i], mul(mul(l.p[1], z.p[i]), sqrt(maxi(0, div(pc, z.p[i]) - ONE))))
      { S: [z.p[i] - q / 3, 0, 0, 0, z.p[i] - q / 3, 0, 0, 0, z.p[i] + 2 * q / 3], e: ZM, a: pc, p0: 0, sref: ZM }
    } else if (l.kind == NF) { S: isoS(z.p[i]), e: ZM, a: div(z.rho[i], pow(div(z.p[i], l.p[0]) + ONE, div(ONE, l.p[2]))), p0: 0, sref: ZM }
    else if (l.kind == MUI) { S: isoS(z.p[i]), e: ZM, a: div(z.rho[i], div(z.p[i], l.p[4]) + ONE), p0: 0, sref: ZM }
    else if (l.kind == DP) { S: isoS(z.p[i]), e: ZM, a: 0, p0: z.p[i], sref: ZM }
    else { S: z.S[i], e: ZM, a: 0, p0: 0, sref: ZM }
  pure def rhoOf(l: Law, z: Ini, s: LSt, i: int): int = if (l.kind == MCC) div(l.p[9], vSl(l, s.a, press(s.S))) else if (l.kind == DP) 2 * l.p[7] else z.rho[i]

  action init = {
    nondet kind = oneOf(KINDS)
    nondet s = oneOf(0.to(2^48))
    nondet m = oneOf(0.to(3))
    // at rest the pressure floor of the mu(I) law would show instead of the pressure of the equation of state
    val l0 = G::newLaw(kind, s)
    val l = if (kind == MUI) l0.with("p", l0.p.replaceAt(7, 0)) else l0
    val z = mkIni(l, s, m)
    all { law' = l, ini' = z, seed' = s, st' = range(0, NP).foldl([], (a, i) => a.append(create(l, z, i))), kept' = [] }
  }
  // a step at rest
  action step = all { law' = law, ini' = ini, seed' = seed, st' = st,
    kept' = range(0, NP).foldl([], (a, i) => a.append(lawStep(law, st[i], ZM, ONE / 100, rhoOf(law, ini, st[i], i)))) }
  val admissible = law.kind != MCC or range(0, NP).foldl(true, (b, i) => b and mccF(law.p[1], press(st[i].S), st[i].a, qvm(st[i].S)) <= mul(sq(st[i].a), ONE / 2^20))
  val keeps = kept.length() == 0 or range(0, NP).foldl(true, (b, i) => b and
    mclose(kept[i].S, st[i].S, mmaxabs(st[i].S) / 2^12 + stiffness(law, st[i]) / 2^20 + 64) and near(kept[i].a, st[i].a, st[i].a / 2^12))
  val inv = admissible and keeps
}
module gen_init_all { import gen_init(KINDS=Set(0, 1, 2, 3, 4), NP=3).* }
module gen_init_mcc { import gen_init(KINDS=Set(4), NP=3).* }
