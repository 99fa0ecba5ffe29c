// A run and its records: stepping a simulation, writers, directories, loading.
// Contents are identified by how they came about: the operations since the
// build (`path`) and the time step in force.
module hist {
  import fx.* from "./fx"
  // m: 0 eager, 1 compiled, 2 compiled loop, 9 went through a file; n steps at time step code d;
  // of: length of the loop the steps were part of (n < of: seen from inside the loop)
  type Leg = { m: int, n: int, d: int, of: int }
  type Cont = { path: List[Leg], dt: int, k: int }   // k: step number of the build
  type File = { c: Cont, torn: bool }
  type Dir = { there: bool, solver: bool, files: int -> File }
  type Sys = { k0: int, cur: Cont, dirs: List[Dir], ws: List[int] }
  type Op = { k: int, a: int, b: int, c: int }

  pure val EAGER: int = 0
  pure val JIT: int = 1
  pure val LOOP: int = 2
  pure val LOOPSAVE: int = 3
  pure val SETDT: int = 4
  pure val OPEN: int = 5
  pure val SAVE: int = 6
  pure val SAVESOLVER: int = 7
  pure val LOAD: int = 8
  pure val REBUILD: int = 9
  pure val TEAR: int = 10

  pure val NDIRS: int = 3
  // directory 1 lies inside directory 0; directory 2's name begins like directory 0's
  pure def inside(d: int, e: int): bool = d == e or (d == 1 and e == 0)
  pure val emptyDir: Dir = { there: false, solver: false, files: Map() }
  // a build may continue the numbering of an earlier run
  pure val JUMPS: List[int] = [0, 100000, 1000000, 65536, 10000, 1]
  pure def fresh(dt: int, k: int): Cont = { path: [], dt: dt, k: k }
  pure def start(k0: int, dt: int): Sys = { k0: k0, cur: fresh(dt, k0), dirs: [emptyDir, emptyDir, emptyDir], ws: [] }

  pure def stepsOf(p: List[Leg]): int = p.foldl(0, (a, l) => a + l.n)
  pure def stepNo(s: Sys, c: Cont): int = c.k + stepsOf(c.path)
  // the time steps taken, in order: what the result depends on
  pure def dtsOf(p: List[Leg]): List[int] = p.foldl([], (a, l) => range(0, l.n).foldl(a, (b, i) => b.append(l.d)))
  pure def sameRun(c: Cont, d: Cont): bool = c.dt == d.dt and dtsOf(c.path) == dtsOf(d.path)
  pure def advance(c: Cont, m: int, n: int, tot: int): Cont = { ...c, path: c.path.append({ m: m, n: n, d: c.dt, of: tot }) }
  pure def has(d: Dir, k: int): bool = d.files.keys().contains(k)
  // does the operation fail (and change nothing)?
  pure def refused(s: Sys, o: Op): bool = o.k == LOAD and {
    val d = s.dirs[o.a]
    not(d.there) or not(d.solver) or not(has(d, o.b)) or d.files.get(o.b).torn }
  // is the operation covered by the specification?
  pure def covered(s: Sys, o: Op): bool =
    if (o.k == SAVE or o.k == SAVESOLVER) o.a < s.ws.length() and s.dirs[s.ws[o.a]].there
    else if (o.k == LOOPSAVE) o.c < s.ws.length() and s.dirs[s.ws[o.c]].there
    else if (o.k == TEAR) s.dirs[o.a].there and has(s.dirs[o.a], o.b)
    else true
  pure def putFile(ds: List[Dir], d: int, k: int, f: File): List[Dir] = ds.replaceAt(d, { ...ds[d], files: ds[d].files.put(k, f) })
  // steps at which a loop of n steps from step k saves, when it saves at multiples of e
  pure def savedAt(k: int, n: int, e: int): List[int] = range(1, n + 1).foldl([], (l, i) => if ((k + i) % e == 0) l.append(i) else l)
  pure def apply(s: Sys, o: Op, d0: int): Sys =
    if (refused(s, o)) s
    else if (o.k <= LOOP) { ...s, cur: advance(s.cur, o.k, o.a, o.a) }
    else if (o.k == LOOPSAVE) {
      val ds = savedAt(stepNo(s, s.cur), o.a, o.b).foldl(s.dirs, (l, i) =>
        putFile(l, s.ws[o.c], stepNo(s, s.cur) + i, { c: advance(s.cur, LOOP, i, o.a), torn: false }))
      { ...s, dirs: ds, cur: advance(s.cur, LOOP, o.a, o.a) } }
    else if (o.k == SETDT) { ...s, cur: { ...s.cur, dt: o.a } }
    else if (o.k == OPEN) {
      val ds = range(0, NDIRS).foldl([], (l, d) => l.append(
        if (o.b == 1 and d == o.a) { ...emptyDir, there: true }
        else if (o.b == 1 and inside(d, o.a)) emptyDir
        else if (inside(o.a, d)) { ...s.dirs[d], there: true } else s.dirs[d]))
      { ...s, dirs: ds, ws: s.ws.append(o.a) } }
    else if (o.k == SAVE) { ...s, dirs: putFile(s.dirs, s.ws[o.a], stepNo(s, s.cur), { c: s.cur, torn: false }) }
    else if (o.k == SAVESOLVER) { ...s, dirs: s.dirs.replaceAt(s.ws[o.a], { ...s.dirs[s.ws[o.a]], solver: true }) }
    else if (o.k == LOAD) { val c = s.dirs[o.a].files.get(o.b).c
      { ...s, cur: { ...c, path: c.path.append({ m: 9, n: 0, d: 0, of: 0 }) } } }
    else if (o.k == REBUILD) { ...s, cur: fresh(d0, s.k0 + JUMPS[o.a]) }
    else { ...s, dirs: putFile(s.dirs, o.a, o.b, { ...s.dirs[o.a].files.get(o.b), torn: true }) }
}
