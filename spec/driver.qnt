// The state machine that drives the implementation: as machine.qnt, without the ghost variables.
module driver {
  import numerics.* from "./numerics"
  import clmm.* from "./clmm"
  import system.* from "./system"
  import gen.* from "./gen"

  const PROFILES: Set[int]
  var w: World
  var tx: Tx
  var res: { ok: bool, why: str, path: List[List[(str, int)]], ev: List[Ev], subs: Set[(str, str)] }
  var todo: List[Tx]
  var prof: int

  action take(t: Tx, rest: List[Tx]): bool = {
    val e = exec(w, t)
    all {
      w' = e.w,
      tx' = t,
      res' = { ok: e.ok, why: e.why, path: e.path, ev: e.ev, subs: mustFail(prof, w, t, e) },
      todo' = rest,
      prof' = prof
    }
  }
  action init = {
    nondet r = 0.to(2^400).oneOf()
    nondet pr = PROFILES.oneOf()
    all {
      prof' = pr,
      w' = start(pr),
      tx' = T(ETime({ dt: 0 })),
      res' = { ok: true, why: "", path: [], ev: [], subs: Set() },
      todo' = opening(pr, r)
    }
  }
  action step = {
    nondet r = 0.to(2^400).oneOf()
    val l = upcoming(w, prof, todo, r)
    take(l.head(), l.tail())
  }
}
