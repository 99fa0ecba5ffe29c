// Scenario space of the MPM step: which simulations are built and stepped.
// Every numeric datum is derived from nondeterministic picks, so a Quint run
// is a sample (or, for the discrete picks, an enumeration) of that space.
module scen {
  import fx.* from "./fx"
  import tens.* from "./tens"
  import kernel.* from "./kernel"
  import mpm.* from "./mpm"
  import sdf.Sdf from "./sdf"
  import sdf.Col from "./sdf"

  // deterministic hash of (seed, k) to an integer in [0, n)
  pure def rnd(seed: int, k: int, n: int): int = {
    val M = 2^61 - 1
    val a = (seed * 6364136223846793005 + k * 1442695040888963407 + 1013904223) % M
    val b = (a * a + 2305843009213693921 * a + k) % M
    val c = (b * b + seed) % M
    (c / 1024) % n
  }
  // signed integer in [-n, n]
  pure def srnd(seed: int, k: int, n: int): int = rnd(seed, k, 2 * n + 1) - n
  // odd number in [-2n-1, 2n+1] never 0
  pure def odd(seed: int, k: int, n: int): int = 2 * srnd(seed, k, n) + 1

  type Body = { g: int, k: int, law: int, store: bool, pts: List[Pt] }
  type Scn = {
    dim: int, h: int, org: List[int], cells: List[int], pad: int, dt: int,
    scheme: int, alpha: int, dynA: bool, smin: int, smax: int, bmin: int, bmax: int, cfl: int,
    ng: int, h1: int, shift: List[int], bodies: List[Body], forces: List[Frc], fsel: int, bsel: int, ord: int,
    E: int, nu: int, law: int, vf: int, A: List[int], fall: List[int], objs: List[Sdf], cols: List[Col], seed: int }

  pure val HS: List[int] = [ONE / 4, ONE / 2, ONE / 10, ONE, 3 * ONE / 8, 3 * ONE / 2]
  pure val DTS: List[int] = [ONE / 64, ONE / 100, ONE / 1000, ONE / 20]
  pure val ALPHAS: List[int] = [0, ONE / 4, ONE / 2, 99 * ONE / 100, ONE]

  // cells of grid 1 along an axis with c cells of grid 0
  pure def cells1(s: Scn, c: int): int = ((c + 3) * s.h + s.h1 - 1) / s.h1

  // the gradient (and the code's L = -A) of the affine field
  pure def affineA(seed: int, dim: int, u: int): List[int] =
    m9((i, j) => if (dim == 2 and (i == 2 or j == 2)) 0 else odd(seed, 31 + 3 * i + j, 6) * u / 1024)

  // vf: velocity field kind. 0 random, 1 uniform, 2 affine (common to all bodies)
  pure def velAt(vf: int, seed: int, dim: int, u: int, x: List[int], c: List[int], own: int): List[int] = {
    val z = if (vf == 0)
        (if (rnd(seed, own * 97 + 10, 4) == 0) ZV else v3(i => odd(seed, own * 97 + 11 + i, 12) * u / 64))   // some points are at rest
      else if (vf == 1) v3(i => odd(seed, 11 + i, 12) * u / 64)
      else {
        val A = affineA(seed, dim, u)
        vadd(v3(i => odd(seed, 11 + i, 8) * u / 64), mv(A, vsub(x, c)))
      }
    if (dim == 2) [z[0], z[1], 0] else z
  }
  // one material point; cc(i) = cell coordinate * 32 of axis i relative to the physical origin
  pure def mkPt(seed: int, own: int, dim: int, h: int, dt: int, org: List[int], cc: List[int], vf: int, stress: bool, ctr: List[int], deform: bool, scheme: int): Pt = {   // vf 2: C carries the affine field
    val u = h * ONE / dt / 4                     // a quarter cell per step
    val hd = if (dim == 2) mul(h, h) else mul(h, mul(h, h))
    val x0 = v3(i => org[i] + mul(h, cc[i] * ONE / 32))
    val x = if (dim == 2) [x0[0], x0[1], 0] else x0
    val m = (1 + rnd(seed, own * 97 + 1, 24)) * ONE / 8
    val vol0 = mul(hd, (4 + rnd(seed, own * 97 + 2, 20)) * ONE / 64)
    val F0 = if (deform) m9((i, j) => at(IM, i, j) + odd(seed, own * 97 + 40 + 3 * i + j, 6) * ONE / 128) else IM
    val F = if (dim == 2) [F0[0], F0[1], 0, F0[3], F0[4], 0, 0, 0, ONE] else F0
    val vol = mul(det(F), vol0)
    // stress scaled so that a step changes velocities by a fraction of a cell per step
    val sc = div(mul(m, div(mul(h, h), mul(dt, dt))), vol) / 32
    val S0 = sym(m9((i, j) => mul(sc, odd(seed, own * 97 + 60 + 3 * i + j, 8) * ONE / 16)))
    val S = if (stress) S0 else ZM
    val C0 = if (scheme == USL or not(deform)) ZM else m9((i, j) => div(odd(seed, own * 97 + 75 + 3 * i + j, 6) * ONE / 256, dt))
    val C = if (vf == 2 and scheme != USL) mscale(-ONE, affineA(seed, dim, u)) else if (dim == 2) [C0[0], C0[1], 0, C0[3], C0[4], 0, 0, 0, 0] else C0
    { x: x, v: velAt(vf, seed, dim, u, x, ctr, own), f: ZV, m: m, vol: vol, vol0: vol0, S: S, F: F, Fs: F, C: C }
  }
}
