// Generator: histories of stepping, saving, loading and reopening.
module gen_run {
  import fx.* from "./fx"
  import hist.* from "./hist"
  import scen.rnd from "./scen"
  const IO: bool      // mostly files, or mostly stepping

  var sys: Sys
  var log: List[Op]
  var seed: int
  var d0: int
  var last: Op

  pure def pick(l: List[int], s: int, i: int): int = l[rnd(s, i, l.length())]
  pure def choose(s: Sys, x: int): Op = {
    val kinds = if (IO) [0, 1, 1, 2, 3, 3, 3, 4, 5, 5, 5, 6, 6, 6, 6, 6, 7, 7, 7, 8, 8, 8, 8, 8, 9, 9, 10] else [0, 1, 1, 1, 2, 2, 3, 4, 4, 6, 7, 8, 8, 9, 9]
    val k = pick(kinds, x, 1)
    val w = if (s.ws.length() == 0) 0 else rnd(x, 2, s.ws.length())
    val d = rnd(x, 3, NDIRS)
    // a directory that has something, if any
    val dd = if (s.dirs[d].files.keys().size() > 0) d else if (s.ws.length() == 0) d else s.ws[w]
    val ks = s.dirs[dd].files.keys().fold([], (l, q) => l.append(q))
    val k1 = if (ks.length() == 0 or rnd(x, 4, 6) == 0) s.k0 + rnd(x, 5, 8) else ks[rnd(x, 5, ks.length())]
    if (k <= LOOP) { k: k, a: if (k == EAGER) 1 else 1 + rnd(x, 6, 3), b: 0, c: 0 }
    else if (k == LOOPSAVE) { k: k, a: 2 + rnd(x, 6, 4), b: 1 + rnd(x, 7, 2), c: w }
    else if (k == SETDT) { k: k, a: rnd(x, 6, 3), b: 0, c: 0 }
    else if (k == OPEN) { k: k, a: if (rnd(x, 14, 2) == 0) d else dd, b: rnd(x, 6, 2), c: rnd(x, 7, 3) }
    else if (k == SAVE or k == SAVESOLVER) { k: k, a: w, b: 0, c: 0 }
    else if (k == LOAD) { k: k, a: dd, b: k1, c: rnd(x, 6, 2) }
    else if (k == REBUILD) { k: k, a: rnd(x, 6, JUMPS.length()), b: 0, c: 0 }
    else { k: TEAR, a: dd, b: k1, c: rnd(x, 6, 5) }
  }
  pure val NOP: Op = { k: -1, a: 0, b: 0, c: 0 }
  // the first operations open a writer and save the solver, so that histories get somewhere
  pure def opening(x: int, i: int): Op =
    if (i == 0) { k: OPEN, a: rnd(x, 8, NDIRS), b: rnd(x, 9, 2), c: rnd(x, 10, 3) } else { k: if (i == 1) SAVESOLVER else SAVE, a: 0, b: 0, c: 0 }

  def timetable(s: Sys, o: Op): Op = {
    val n = stepsOf(s.cur.path)
    val want = rnd(seed, 40 + n / 4, 3)
    if (o.k > LOOPSAVE and o.k != SETDT) o
    else if (s.cur.dt != want) { k: SETDT, a: want, b: 0, c: 0 }
    else if (o.k == SETDT) { k: EAGER, a: 1, b: 0, c: 0 }
    else { ...o, a: mini(o.a, 4 - n % 4) } }

  action init = {
    nondet s = oneOf(0.to(2^48))
    val d = rnd(s, 1, 3)
    val s0 = start(pick([0, 0, 7, 99998, 999997, 16777213], s, 2), d)
    all { sys' = s0, log' = [], seed' = s, d0' = d, last' = NOP }
  }
  action step = {
    nondet x = oneOf(0.to(2^48))
    val o0 = if (log.length() < 3 and rnd(seed, 3, 4) > 0) opening(seed, log.length()) else choose(sys, x)
    // three of four stepping histories follow a timetable, so that the same steps are taken again, cut up differently
    // a rebuilt run often saves at once
    val again = last.k == REBUILD and sys.ws.length() > 0 and rnd(x, 12, 4) > 0
    // a directory written over is often used again
    val reuse = last.k == OPEN and last.b == 1 and sys.ws.length() > 0 and rnd(x, 15, 2) == 0
    val o1 = if (reuse) { k: SAVESOLVER, a: sys.ws.length() - 1, b: 0, c: 0 } else if (again) { k: SAVE, a: rnd(x, 13, sys.ws.length()), b: 0, c: 0 } else if (IO or rnd(seed, 11, 4) == 0) o0 else timetable(sys, o0)
    val o = if (covered(sys, o1)) o1 else { k: JIT, a: 1 + rnd(x, 6, 3), b: 0, c: 0 }
    all { sys' = apply(sys, o, d0), log' = log.append(o), seed' = seed, d0' = d0, last' = o }
  }
  // ---- theorems --------------------------------------------------------------
  // every file is named after the step of its content
  val namedByStep = sys.dirs.indices().forall(d => sys.dirs[d].files.keys().forall(k => stepNo(sys, sys.dirs[d].files.get(k).c) == k))
  // a directory that is not there holds nothing; a nested one needs its parent
  val coherent = sys.dirs.indices().forall(d => sys.dirs[d].there or (not(sys.dirs[d].solver) and sys.dirs[d].files == Map())) and (sys.dirs[1].there implies sys.dirs[0].there)
  // writers that may be used lie in opened directories; every operation names one
  val opened = sys.dirs.indices().forall(d => (sys.dirs[d].solver or sys.dirs[d].files.keys().size() > 0) implies sys.ws.select(w => w == d).length() > 0)
  // saving, then loading with nothing in between, is a detour: the run continues as if nothing happened
  val detour = sys.ws.length() == 0 or not(sys.dirs[sys.ws[0]].there) or {
    val d = sys.ws[0]
    val a = apply(sys, { k: SAVE, a: 0, b: 0, c: 0 }, d0)
    val b = apply(a, { k: SAVESOLVER, a: 0, b: 0, c: 0 }, d0)
    val c = apply(b, { k: LOAD, a: d, b: stepNo(sys, sys.cur), c: 0 }, d0)
    sameRun(c.cur, sys.cur) and sameRun(apply(c, { k: JIT, a: 2, b: 0, c: 0 }, d0).cur, apply(sys, { k: LOOP, a: 2, b: 0, c: 0 }, d0).cur) }
  // reopening without overwriting changes nothing that can be loaded; overwriting touches this directory and what is inside it
  val reopen = range(0, NDIRS).foldl(true, (ok, d) => ok and {
    val a = apply(sys, { k: OPEN, a: d, b: 0, c: 0 }, d0)
    val b = apply(sys, { k: OPEN, a: d, b: 1, c: 0 }, d0)
    range(0, NDIRS).foldl(true, (o2, e) => o2 and a.dirs[e].files == sys.dirs[e].files and a.dirs[e].solver == sys.dirs[e].solver and
      (if (inside(e, d)) b.dirs[e].files == Map() else b.dirs[e].files == sys.dirs[e].files)) })
  // splitting a leg changes nothing
  val split = range(1, 4).foldl(true, (ok, n) => ok and sameRun(advance(advance(sys.cur, JIT, n, n), LOOP, 4 - n, 4 - n), advance(sys.cur, EAGER, 4, 4)))
  val inv = namedByStep and coherent and opened and detour and reopen and split
}
module gen_run_io { import gen_run(IO=true).* }
module gen_run_step { import gen_run(IO=false).* }
