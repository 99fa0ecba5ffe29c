// Verdicts of a trace validation: total, naming the failing clause.
module verdict {
  import fx.* from "./fx"
  type Bad = { ev: int, clause: str, a: int, b: int, got: int, want: int, tol: int }
  type V = { ev: int, bad: List[Bad], cnt: str -> int }
  // kept per clause and event: a flood of one clause must not hide another
  pure val MAXBAD: int = 3
  pure def newV(ev: int): V = { ev: ev, bad: [], cnt: Map() }
  pure def hit(v: V, c: str): V = v.with("cnt", v.cnt.put(c, 1 + (if (v.cnt.keys().contains(c)) v.cnt.get(c) else 0)))
  pure def flag(v: V, c: str, a: int, b: int, got: int, want: int, tol: int): V =
    if (v.bad.select(x => x.clause == c).length() >= MAXBAD) v
    else v.with("bad", v.bad.append({ ev: v.ev, clause: c, a: a, b: b, got: got, want: want, tol: tol }))
  // |got - want| <= tol, and got is a finite number
  pure def near_(v: V, c: str, a: int, b: int, got: int, want: int, tol: int): V =
    if (finite(got) and near(got, want, tol)) hit(v, c) else flag(hit(v, c), c, a, b, got, want, tol)
  pure def ok_(v: V, c: str, a: int, b: int, cond: bool): V =
    if (cond) hit(v, c) else flag(hit(v, c), c, a, b, 0, 1, 0)
  pure def ge_(v: V, c: str, a: int, b: int, got: int, lo: int, tol: int): V =
    if (finite(got) and got >= lo - tol) hit(v, c) else flag(hit(v, c), c, a, b, got, lo, tol)
  pure def le_(v: V, c: str, a: int, b: int, got: int, hi: int, tol: int): V =
    if (finite(got) and got <= hi + tol) hit(v, c) else flag(hit(v, c), c, a, b, got, hi, tol)
  // element-wise over two lists; one count
  pure def list_(v: V, c: str, a: int, got: List[int], want: List[int], tol: int): V =
    if (got.length() != want.length()) flag(hit(v, c), c, a, -1, got.length(), want.length(), 0)
    else got.indices().fold(hit(v, c), (u, i) =>
      if (finite(got[i]) and near(got[i], want[i], tol)) u else flag(u, c, a, i, got[i], want[i], tol))
  pure def allFinite(l: List[int]): bool = l.foldl(true, (a, x) => a and finite(x))
  pure def finite_(v: V, c: str, a: int, l: List[int]): V =
    if (allFinite(l)) hit(v, c) else flag(hit(v, c), c, a, -1, NONFINITE, 0, 0)
  pure def merge(x: V, y: V): V = {
    ev: y.ev, bad: x.bad.concat(y.bad),
    cnt: y.cnt.keys().fold(x.cnt, (m, k) => m.put(k, y.cnt.get(k) + (if (m.keys().contains(k)) m.get(k) else 0))) }
  pure def maxabs(l: List[int]): int = l.foldl(0, (m, x) => maxi(m, abs(x)))
}
// Recorded events.  A chunk is one big integer of 96-bit words, least
// significant word first; word 0 is the number of words that follow, every
// word is offset by 2^95.  The words of an event are
//   [nf, len_0 .. len_{nf-1}, data...]  (nf fields)
module dec {
  pure val B: int = 2^96
  pure val OFF: int = 2^95
  pure def unpack(c: int): List[int] = {
    val n = c % B - OFF
    range(0, n).foldl((c / B, []), (acc, i) => (acc._1 / B, acc._2.append(acc._1 % B - OFF)))._2
  }
  pure def words(ch: List[int]): List[int] = ch.foldl([], (l, c) => l.concat(unpack(c)))
  pure def fieldsOf(ch: List[int]): List[List[int]] = {
    val w = words(ch)
    val nf = w[0]
    range(0, nf).foldl((1 + nf, []), (acc, k) =>
      (acc._1 + w[1 + k], acc._2.append(w.slice(acc._1, acc._1 + w[1 + k]))))._2
  }
  pure def sub(l: List[int], i: int, n: int): List[int] = l.slice(i * n, (i + 1) * n)
}
