// 3-vectors (List of 3 reals) and 3x3 tensors (List of 9 reals, row major).
module tens {
  import fx.* from "./fx"

  pure val ZV: List[int] = [0, 0, 0]
  pure val ZM: List[int] = [0, 0, 0, 0, 0, 0, 0, 0, 0]
  pure val IM: List[int] = [ONE, 0, 0, 0, ONE, 0, 0, 0, ONE]

  pure def v3(f: (int) => int): List[int] = [f(0), f(1), f(2)]
  pure def vadd(a: List[int], b: List[int]): List[int] = v3(i => a[i] + b[i])
  pure def vsub(a: List[int], b: List[int]): List[int] = v3(i => a[i] - b[i])
  pure def vscale(k: int, a: List[int]): List[int] = v3(i => mul(k, a[i]))
  pure def vdivs(a: List[int], k: int): List[int] = [div(a[0], k), div(a[1], k), div(a[2], k)]
  pure def dot(a: List[int], b: List[int]): int = mul(a[0], b[0]) + mul(a[1], b[1]) + mul(a[2], b[2])
  pure def norm(a: List[int]): int = sqrt(dot(a, a))
  pure def vcross(a: List[int], b: List[int]): List[int] = [
    mul(a[1], b[2]) - mul(a[2], b[1]), mul(a[2], b[0]) - mul(a[0], b[2]), mul(a[0], b[1]) - mul(a[1], b[0])]
  pure def vmaxabs(a: List[int]): int = a.foldl(0, (m, x) => maxi(m, abs(x)))
  pure def vclose(a: List[int], b: List[int], tol: int): bool = forallIn(3, i => near(a[i], b[i], tol))

  pure def m9(f: (int, int) => int): List[int] = [
    f(0, 0), f(0, 1), f(0, 2), f(1, 0), f(1, 1), f(1, 2), f(2, 0), f(2, 1), f(2, 2)]
  pure def at(a: List[int], i: int, j: int): int = a[3 * i + j]
  pure def madd(a: List[int], b: List[int]): List[int] = m9((i, j) => at(a, i, j) + at(b, i, j))
  pure def msub(a: List[int], b: List[int]): List[int] = m9((i, j) => at(a, i, j) - at(b, i, j))
  pure def mscale(k: int, a: List[int]): List[int] = m9((i, j) => mul(k, at(a, i, j)))
  // NOTE (Quint 0.32 simulator): a lambda passed to v3, m9, sumOver or forallIn must not refer to a `val` whose
  // definition calls the same operator again: vals are evaluated lazily and the inner call overwrites the
  // outer one's parameter.  Pass such values as arguments (which are evaluated first) instead.
  pure def mdivs(a: List[int], k: int): List[int] = m9((i, j) => div(at(a, i, j), k))
  pure def mm(a: List[int], b: List[int]): List[int] =
    m9((i, j) => mul(at(a, i, 0), at(b, 0, j)) + mul(at(a, i, 1), at(b, 1, j)) + mul(at(a, i, 2), at(b, 2, j)))
  pure def mv(a: List[int], v: List[int]): List[int] =
    v3(i => mul(at(a, i, 0), v[0]) + mul(at(a, i, 1), v[1]) + mul(at(a, i, 2), v[2]))
  pure def tr(a: List[int]): int = a[0] + a[4] + a[8]
  pure def transp(a: List[int]): List[int] = m9((i, j) => at(a, j, i))
  pure def sym(a: List[int]): List[int] = m9((i, j) => (at(a, i, j) + at(a, j, i)) / 2)
  pure def skew(a: List[int]): List[int] = m9((i, j) => (at(a, i, j) - at(a, j, i)) / 2)
  pure def dev(a: List[int]): List[int] = { val p = tr(a) / 3 m9((i, j) => at(a, i, j) - if (i == j) p else 0) }
  pure def ddot(a: List[int], b: List[int]): int = sumOver(9, i => mul(a[i], b[i]))
  pure def outer(a: List[int], b: List[int]): List[int] = m9((i, j) => mul(a[i], b[j]))
  pure def diag3(k: int): List[int] = [k, 0, 0, 0, k, 0, 0, 0, k]
  pure def mmaxabs(a: List[int]): int = a.foldl(0, (m, x) => maxi(m, abs(x)))
  pure def mclose(a: List[int], b: List[int], tol: int): bool = forallIn(9, i => near(a[i], b[i], tol))
  pure def issym(a: List[int], tol: int): bool = mclose(a, transp(a), tol)
  pure def det(a: List[int]): int =
      mul(a[0], mul(a[4], a[8]) - mul(a[5], a[7]))
    - mul(a[1], mul(a[3], a[8]) - mul(a[5], a[6]))
    + mul(a[2], mul(a[3], a[7]) - mul(a[4], a[6]))
  // pressure (compression positive), deviatoric invariants
  pure def press(s: List[int]): int = tr(s) / 3
  pure def J2(s: List[int]): int = { val d = dev(s) ddot(d, d) / 2 }
  pure def qvm(s: List[int]): int = sqrt(3 * J2(s))

  // rotation matrices: plane (i,j) by an angle given by its cos/sin
  pure def rotZ(a: int): List[int] = { val w = cosSin(a) [w.c, -w.s, 0, w.s, w.c, 0, 0, 0, ONE] }
  pure def rotQ(q: List[int]): List[int] = [ // unit quaternion w,x,y,z
    ONE - 2 * (mul(q[2], q[2]) + mul(q[3], q[3])), 2 * (mul(q[1], q[2]) - mul(q[0], q[3])), 2 * (mul(q[1], q[3]) + mul(q[0], q[2])),
    2 * (mul(q[1], q[2]) + mul(q[0], q[3])), ONE - 2 * (mul(q[1], q[1]) + mul(q[3], q[3])), 2 * (mul(q[2], q[3]) - mul(q[0], q[1])),
    2 * (mul(q[1], q[3]) - mul(q[0], q[2])), 2 * (mul(q[2], q[3]) + mul(q[0], q[1])), ONE - 2 * (mul(q[1], q[1]) + mul(q[2], q[2]))]

  run tensTest = all {
    assert(det([R(2), R(1), 0, 0, R(3), 0, R(1), 0, R(4)]) == R(24)),
    assert(tr(dev([R(2), R(1), 0, 0, R(3), 0, R(1), 0, R(4)])) == 0),
    assert(mclose(mm(rotZ(R(1)), transp(rotZ(R(1)))), IM, 64)),
    assert(mv(IM, [R(1), R(2), R(3)]) == [R(1), R(2), R(3)]),
    assert(vcross([ONE, 0, 0], [0, ONE, 0]) == [0, 0, ONE]),
  }
}
