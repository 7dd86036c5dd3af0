// The state machine: the system plus the bookkeeping of what is tried next.
module machine {
  import numerics.* from "./numerics"
  import clmm.* from "./clmm"
  import system.* from "./system"
  import gen.* from "./gen"
  import props.* from "./props"

  const PROFILES: Set[int]
  var w: World
  var tx: Tx
  var res: { ok: bool, why: str, path: List[List[(str, int)]], ev: List[Ev], subs: Set[(str, str)] }
  var todo: List[Tx]
  var prof: int
  var gh: Ghost
  var bad: Set[str]

  action take(t: Tx, rest: List[Tx]): bool = {
    val e = exec(w, t)
    val g = ghost(gh, w, t, e)
    all {
      w' = e.w,
      tx' = t,
      res' = { ok: e.ok, why: e.why, path: e.path, ev: e.ev, subs: mustFail(prof, w, t, e) },
      todo' = rest,
      prof' = prof,
      gh' = g,
      bad' = violated(g, w, t, e)
    }
  }
  action begin(pr: int, l: List[Tx]): bool = all {
    prof' = pr,
    w' = start(pr),
    tx' = T(ETime({ dt: 0 })),
    res' = { ok: true, why: "", path: [], ev: [], subs: Set() },
    todo' = l,
    gh' = ghost0(start(pr)),
    bad' = Set()
  }
  action init = {
    nondet r = 0.to(2^400).oneOf()
    nondet pr = PROFILES.oneOf()
    begin(pr, opening(pr, r))
  }
  action step = {
    nondet r = 0.to(2^400).oneOf()
    val l = upcoming(w, prof, todo, r)
    take(l.head(), l.tail())
  }
  // no property is violated
  val good = bad == Set()
}
