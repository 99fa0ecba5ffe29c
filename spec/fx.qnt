// Fixed-point real numbers over Quint's unbounded integers.
//
// A real x is the integer x * ONE (ONE = 2^48).  float32 values of the
// implementation are logged exactly (up to 2^-48), so every arithmetic
// statement of the specification is evaluated with an error of about 1e-14,
// seven orders of magnitude below the float32 error of the implementation.
module fx {
  pure val ONE: int = 281474976710656
  pure val HALF: int = ONE / 2
  // logged for a float that is not finite
  pure val NONFINITE: int = 2^94

  pure def abs(a: int): int = if (a < 0) -a else a
  pure def maxi(a: int, b: int): int = if (a < b) b else a
  pure def mini(a: int, b: int): int = if (a < b) a else b
  pure def clampi(a: int, lo: int, hi: int): int = mini(maxi(a, lo), hi)
  pure def sgn(a: int): int = if (a < 0) -1 else if (a > 0) 1 else 0

  // floor division for any sign (Quint's / truncates)
  pure def fdiv(a: int, b: int): int = {
    val q = a / b
    if (q * b == a) q
    else if ((a < 0 and b > 0) or (a > 0 and b < 0)) q - 1 else q
  }
  pure def fmod(a: int, b: int): int = a - b * fdiv(a, b)

  pure def R(n: int): int = n * ONE
  // the rational n/d
  pure def Q(n: int, d: int): int = n * ONE / d
  pure def mul(a: int, b: int): int = a * b / ONE
  pure def div(a: int, b: int): int = if (b == 0) 0 else a * ONE / b
  pure def sq(a: int): int = mul(a, a)
  pure def floorToInt(a: int): int = fdiv(a, ONE)

  // integer square root (floor), bit by bit from 2^100
  pure def isqrt(n: int): int =
    if (n <= 0) 0
    else range(0, 130).foldl((n, 0), (acc, i) => {
      // classical digit-by-digit method
      val bit = 2^(2 * (129 - i))
      if (acc._1 >= acc._2 + bit) (acc._1 - acc._2 - bit, acc._2 / 2 + bit)
      else (acc._1, acc._2 / 2)
    })._2
  pure def sqrt(a: int): int = isqrt(a * ONE)

  // cube root by bisection-free Newton on integers
  pure def cbrt(a: int): int = {
    val n = abs(a) * ONE * ONE
    val r = range(0, 130).foldl(2^90, (x, i) => {
      if (x <= 0) 0
      else {
        val y = (2 * x + n / (x * x)) / 3
        if (y < x) y else x
      }
    })
    if (n == 0) 0 else if (a < 0) -r else r
  }

  // exp: halve the argument 2^10 times, Taylor, square back (guard bits: 64)
  pure val G64: int = 2^64
  pure def exp(a: int): int = {
    val one = ONE * G64
    val x = a * G64 / 1024
    val t = range(1, 16).foldl((one, one), (acc, k) => {
      val term = acc._2 * x / one / k
      (acc._1 + term, term)
    })._1
    range(0, 10).foldl(t, (acc, i) => acc * acc / one) / G64
  }
  // ln for a > 0: scale into [1,2) counting powers of two, then artanh series
  pure val LN2: int = 195103586505167
  pure def ln(a: int): int = {
    val s = range(0, 60).foldl((a, 0), (acc, i) =>
      if (acc._1 >= 2 * ONE) (acc._1 / 2, acc._2 + 1)
      else if (acc._1 < ONE) (acc._1 * 2, acc._2 - 1) else acc)
    val m = s._1
    val z = (m - ONE) * ONE * G64 / (m + ONE)
    val one = ONE * G64
    val z2 = z * z / one
    val ser = range(0, 34).foldl((0, z), (acc, k) =>
      (acc._1 + acc._2 / (2 * k + 1), acc._2 * z2 / one))._1
    2 * ser / G64 + s._2 * LN2
  }
  pure def pow(a: int, b: int): int = if (a <= 0) 0 else exp(mul(b, ln(a)))

  // sin / cos by Taylor series after scaling (|a| < 64)
  pure def cosSin(a: int): {c: int, s: int} = {
    val one = ONE * G64
    val x = a * G64 / 1024
    val z = range(1, 14).foldl((one, 0, one, 0), (acc, k) => {
      // term_k = term_{k-1} * i x / k ; (re, im, tre, tim)
      val tre = -(acc._4 * x / one / k)
      val tim = acc._3 * x / one / k
      (acc._1 + tre, acc._2 + tim, tre, tim)
    })
    val w = range(0, 10).foldl((z._1, z._2), (acc, i) =>
      ((acc._1 * acc._1 - acc._2 * acc._2) / one, 2 * acc._1 * acc._2 / one))
    { c: w._1 / G64, s: w._2 / G64 }
  }

  // |a - b| <= tol
  pure def near(a: int, b: int, tol: int): bool = abs(a - b) <= tol
  // relative + absolute closeness used when comparing with float32 results
  pure def close(a: int, b: int, scale: int, rel: int): bool =
    abs(a - b) <= mul(scale, rel)
  pure def finite(a: int): bool = abs(a) < NONFINITE / 4

  pure def sumOver(n: int, f: (int) => int): int = range(0, n).foldl(0, (acc, i) => acc + f(i))
  pure def forallIn(n: int, f: (int) => bool): bool = range(0, n).foldl(true, (acc, i) => acc and f(i))

  run fxTest = all {
    assert(fdiv(-7, 2) == -4), assert(fmod(-7, 2) == 1),
    assert(near(sqrt(R(2)), 398065729532860, 4)),
    assert(near(cbrt(R(27)), R(3), 4)),
    assert(near(exp(R(1)), 765128314358509, 16)),
    assert(near(ln(R(10)), 648120085424803, 16)),
    assert(near(ln(exp(Q(-7, 3))), Q(-7, 3), 64)),
    assert(near(cosSin(R(1)).c, 152081578960948, 16)),
    assert(near(cosSin(R(1)).s, 236853025851495, 16)),
    assert(near(pow(R(2), Q(1, 2)), sqrt(R(2)), 64)),
  }
}
