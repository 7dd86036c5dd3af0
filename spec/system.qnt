// The whole program: every instruction and the relevant environment steps as one transition function.
module system {
  import numerics.* from "./numerics"
  import clmm.* from "./clmm"

  // ---------------------------------------------------------------- state
  type Key = (int, int, int)                       // token 0, token 1, fee
  // a token account of an NFT: balance, approved delegate and how much it may still move
  type NAcc = { amt: int, del: str, damt: int }
  type Nft = { pool: Key, lo: int, hi: int, liq: int, f0: int, f1: int, o0: int, o1: int,
               sup: int, auth: bool, acc: str -> NAcc }
  type World = {
    now: int,
    fac: { ini: bool, owner: str, fp: int },
    tiers: int -> int,
    pools: Key -> Pool,
    nfts: int -> Nft,
    wal: (str, int) -> int,
    sol: str -> int,                               // lamports somebody has spent
    gift: Place -> int                             // lamports at an address beyond what the account there needs
  }
  // the address of an account: kind, pool, owner, and up to two numbers
  type Place = (str, Key, str, int, int)
  pure val FAC = "fac"                             // the position manager, owner of pooled positions
  pure val NO_KEY: Key = (-1, -1, -1)

  // ---------------------------------------------------------------- operations
  // s: signer. cb (who pays): "core" the program's own callback; "exact", "over", "none", "short0", "short1":
  // a foreign program paying exactly, one too much, nothing, one too little of a token;
  // "re:<op>": a foreign program that first re-enters the pool with <op> and then pays exactly;
  // "other": a foreign program that first trades on another pool and then pays exactly.
  type Op =
    | OInitFactory({ s: str })
    | OSetOwner({ s: str, dst: str })
    | OEnableFee({ s: str, fee: int, spacing: int })
    | OSetFeeProt({ s: str, v: int })
    | OColProt({ s: str, p: Key, a0: int, a1: int, r: str })
    | OCreatePool({ s: str, t0: int, t1: int, fee: int, price: int })
    | OIncObs({ s: str, p: Key, n: int })
    | OInitTick({ s: str, p: Key, t: int })
    | OCloseTick({ p: Key, t: int, r: str })
    | OInitWord({ s: str, p: Key, wd: int })
    | OInitPos({ s: str, p: Key, o: str, lo: int, hi: int })
    | OMint({ s: str, p: Key, o: str, lo: int, hi: int, amt: int, cb: str })
    | OBurn({ s: str, p: Key, o: str, lo: int, hi: int, amt: int })
    | OCollect({ s: str, p: Key, o: str, lo: int, hi: int, a0: int, a1: int, r: str })
    | OSwap({ s: str, p: Key, zfo: bool, amt: int, lim: int, cb: str })
    | ONMint({ s: str, r: str, n: int, p: Key, lo: int, hi: int, d0: int, d1: int, m0: int, m1: int, dl: int })
    | ONMeta({ s: str, n: int })
    | ONInc({ s: str, n: int, p: Key, lo: int, hi: int, d0: int, d1: int, m0: int, m1: int, dl: int })
    // an: the NFT whose token account, held by user au, is presented
    | ONDec({ s: str, n: int, an: int, au: str, p: Key, lo: int, hi: int, liq: int, m0: int, m1: int, dl: int })
    | ONCol({ s: str, n: int, an: int, au: str, p: Key, lo: int, hi: int, a0: int, a1: int, r: str })
    | OExSingle({ s: str, p: Key, zfo: bool, amt: int, min: int, lim: int, dl: int })
    | OExIn({ s: str, hops: List[(Key, bool)], amt: int, min: int, dl: int })
    // the payment callbacks, invoked by a user instead of the program
    | OPayMint({ s: str, p: Key, a0: int, a1: int })
    | OPaySwap({ s: str, p: Key, zfo: bool, d0: int, d1: int })
    // environment
    | ETime({ dt: int })
    | EXfer({ s: str, n: int, from: str, dst: str })
    | EAppr({ s: str, n: int, dst: str, amt: int })
    | ERev({ s: str, n: int })
    | EDonate({ s: str, p: Key, side: int, amt: int })
    // lamports sent to an address, whether there is an account or not
    | EFund({ s: str, pl: Place, amt: int })
    // reading the in-range accumulators
    | ESnap({ p: Key, lo: int, hi: int })

  // A transaction: an operation, possibly with one account replaced by another well-formed one
  type Tx = { op: Op, sub: (str, str) }
  pure val NO_SUB = ("", "")

  // ---------------------------------------------------------------- outcomes
  type Name = NPool(Key) | NUser(str) | NWal((str, int)) | NMint(int) | NToken(int) | NZero
  type Ev = { n: str, k: List[Name], v: List[int] }
  // path: additional accounts per hop; segs: accounted swap segments with their pool
  type Res = { w: World, ok: bool, why: str, path: List[List[(str, int)]], ev: List[Ev], segs: List[(Key, Seg)] }

  pure def rej(w: World, why: str): Res = { w: w, ok: false, why: why, path: [], ev: [], segs: [] }
  pure def acc(w: World): Res = { w: w, ok: true, why: "", path: [], ev: [], segs: [] }
  pure def emit(r: Res, e: Ev): Res = if (r.ok) { ...r, ev: r.ev.append(e) } else r
  // reject r (in the state w) unless c; keeps the accounts the operation would have visited
  pure def guard(r: Res, c: bool, w: World, why: str): Res =
    if (not(r.ok) or c) r else { ...r, w: w, ok: false, why: why, ev: [], segs: [] }

  pure def ev(n: str, k: List[Name], v: List[int]): Ev = { n: n, k: k, v: v }
  pure def getOr(m: a -> b, k: a, d: b): b = if (m.keys().contains(k)) m.get(k) else d
  pure def hasPool(w: World, k: Key): bool = w.pools.keys().contains(k)
  pure def hasRange(p: Pool, lo: int, hi: int): bool = and {
    p.ticks.keys().contains(lo), p.ticks.keys().contains(hi),
    p.words.contains(wordOf(lo, p.sp)), p.words.contains(wordOf(hi, p.sp)) }
  pure def hasPos(p: Pool, r: Range): bool = p.pos.keys().contains(r)
  pure def bal(w: World, u: str, t: int): int = w.wal.getOr((u, t), 0)
  pure def setPool(w: World, k: Key, p: Pool): World = { ...w, pools: w.pools.put(k, p) }

  // move x of a token between a wallet and a vault (x may be 0); false if it cannot be done
  pure def canPay(w: World, u: str, t: int, vault: int, x: int): bool = bal(w, u, t) >= x and fits(vault + x)
  pure def canReceive(w: World, u: str, t: int, vault: int, x: int): bool = vault >= x and fits(bal(w, u, t) + x)
  pure def credit(w: World, u: str, t: int, x: int): World =
    if (x == 0) w else { ...w, wal: w.wal.put((u, t), bal(w, u, t) + x) }

  // ---------------------------------------------------------------- rent
  pure val plFactory: Place = ("factory", NO_KEY, "", 0, 0)
  pure def plTier(f: int): Place = ("tier", NO_KEY, "", f, 0)
  pure def plPool(k: Key): Place = ("pool", k, "", 0, 0)
  pure def plObs(k: Key, i: int): Place = ("obs", k, "", i, 0)
  pure def plTick(k: Key, t: int): Place = ("tick", k, "", t, 0)
  pure def plWord(k: Key, wd: int): Place = ("word", k, "", wd, 0)
  pure def plPos(k: Key, r: Range): Place = ("pos", k, r._1, r._2, r._3)
  pure def plNft(n: int): Place = ("nft", NO_KEY, "", n, 0)
  pure def plMint(n: int): Place = ("mint", NO_KEY, "", n, 0)
  pure def plAcc(n: int, u: str): Place = ("acc", NO_KEY, u, n, 0)
  // bytes of an account, and the balance that makes it exempt from rent
  pure val SIZES = Map("factory" -> 42, "tier" -> 15, "pool" -> 138, "obs" -> 32, "tick" -> 65, "word" -> 43, "pos" -> 49,
    "nft" -> 121, "mint" -> 82, "acc" -> 165)
  pure def rent(kind: str): int = (128 + SIZES.get(kind)) * 6960
  pure def spend(w: World, u: str, x: int): World = if (x == 0) w else { ...w, sol: w.sol.put(u, w.sol.getOr(u, 0) + x) }
  pure def setGift(w: World, pl: Place, x: int): World =
    if (x == 0) (if (w.gift.keys().contains(pl)) { ...w, gift: w.gift.without(pl) } else w)
    else { ...w, gift: w.gift.put(pl, x) }
  // s pays for a new account what is missing at its address
  pure def open(w: World, s: str, pl: Place): World = {
    val g = w.gift.getOr(pl, 0)
    val x = rent(pl._1)
    w.spend(s, max2(x - g, 0)).setGift(pl, max2(g - x, 0))
  }
  pure def openAll(w: World, s: str, l: List[Place]): World = l.foldl(w, (v, pl) => open(v, s, pl))
  // the accounts an operation creates, and who pays for them
  pure def created(w: World, op: Op): (str, List[Place]) = match op {
    | OInitFactory(o) => (o.s, [plFactory])
    | OEnableFee(o) => (o.s, [plTier(o.fee)])
    | OCreatePool(o) => (o.s, [plPool((o.t0, o.t1, o.fee)), plObs((o.t0, o.t1, o.fee), 0)])
    | OIncObs(o) => (o.s, range(0, o.n).foldl([], (l, i) => l.append(plObs(o.p, w.pools.get(o.p).cn + i))))
    | OInitTick(o) => (o.s, [plTick(o.p, o.t)])
    | OInitWord(o) => (o.s, [plWord(o.p, o.wd)])
    | OInitPos(o) => (o.s, [plPos(o.p, (o.o, o.lo, o.hi))])
    | ONMint(o) => (o.s, [plMint(o.n), plAcc(o.n, o.r), plNft(o.n)])
    | EXfer(o) => (o.s, if (w.nfts.get(o.n).acc.keys().contains(o.dst)) [] else [plAcc(o.n, o.dst)])
    | _ => ("", [])
  }
  pure def withRent(w: World, op: Op, r: Res): Res =
    if (not(r.ok)) r
    else match op {
      | OCloseTick(o) => { val pl = plTick(o.p, o.t)
                           { ...r, w: r.w.spend(o.r, -rent("tick") - w.gift.getOr(pl, 0)).setGift(pl, 0) } }
      | EFund(o) => { ...r, w: r.w.spend(o.s, o.amt).setGift(o.pl, w.gift.getOr(o.pl, 0) + o.amt) }
      | _ => { val c = created(w, op) { ...r, w: openAll(r.w, c._1, c._2) } }
    }

  // ---------------------------------------------------------------- payment by callback
  // what the payer leaves in the vault when x is due (side 0/1)
  pure def paidBy(cb: str, x: int, side: int): int =
    if (cb == "none") 0
    else if ((cb == "short0" and side == 0) or (cb == "short1" and side == 1)) max2(x - 1, 0)
    else if (cb == "over") x + 1
    else x
  pure def reentrant(cb: str): bool = not(Set("core", "exact", "over", "none", "short0", "short1", "other").contains(cb))

  // ---------------------------------------------------------------- governance
  pure def initFactory(w: World, s: str): Res =
    if (w.fac.ini) rej(w, "exists")
    else acc({ ...w, fac: { ini: true, owner: s, fp: 3 } }).emit(ev("OwnerChanged", [NZero, NUser(s)], []))

  pure def setOwner(w: World, s: str, dst: str): Res =
    acc({ ...w, fac: { ...w.fac, owner: dst } })
      .emit(ev("OwnerChanged", [NUser(s), NUser(dst)], []))
      .guard(w.fac.ini and w.fac.owner == s, w, "notOwner")

  pure def enableFee(w: World, s: str, fee: int, spacing: int): Res =
    acc({ ...w, tiers: w.tiers.put(fee, spacing) })
      .emit(ev("FeeAmountEnabled", [], [fee, spacing]))
      .guard(w.fac.ini and w.fac.owner == s, w, "notOwner")
      .guard(not(w.tiers.keys().contains(fee)), w, "exists")
      .guard(fee < FEE_BASE and spacing > 0 and spacing < MAX_SPACING, w, "range")

  pure def setFeeProt(w: World, s: str, v: int): Res =
    acc({ ...w, fac: { ...w.fac, fp: v } })
      .emit(ev("SetFeeProtocolEvent", [], [w.fac.fp, v]))
      .guard(w.fac.ini and w.fac.owner == s, w, "notOwner")
      .guard(v >= 2 and v <= 10, w, "range")

  pure def colProt(w: World, s: str, k: Key, a0: int, a1: int, r: str): Res =
    if (not(hasPool(w, k))) rej(w, "noPool")
    else {
      val p = w.pools.get(k)
      val x0 = min2(a0, p.p0)
      val x1 = min2(a1, p.p1)
      val w1 = setPool(w, k, { ...p, p0: p.p0 - x0, p1: p.p1 - x1, v0: p.v0 - x0, v1: p.v1 - x1 })
      acc(w1.credit(r, k._1, x0).credit(r, k._2, x1))
        .emit(ev("CollectProtocolEvent", [NPool(k), NUser(s), NWal((r, k._1)), NWal((r, k._2))], [x0, x1]))
        .guard(w.fac.ini and w.fac.owner == s, w, "notOwner")
        .guard(p.unl, w, "locked")
        .guard(canReceive(w, r, k._1, p.v0, x0) and canReceive(w, r, k._2, p.v1, x1), w, "funds")
    }

  // ---------------------------------------------------------------- pools, oracle slots, accounts
  pure def createPool(w: World, s: str, t0: int, t1: int, fee: int, price: int): Res = {
    val k = (t0, t1, fee)
    if (not(w.tiers.keys().contains(fee))) rej(w, "noTier")
    else if (t0 >= t1) rej(w, "tokenOrder")
    else if (hasPool(w, k)) rej(w, "exists")
    else if (price < MIN_PRICE or price >= MAX_PRICE) rej(w, "priceRange")
    else {
      val sp = w.tiers.get(fee)
      val t = tickAt(price)
      val p: Pool = { sp: sp, price: price, tick: t, liq: 0, oi: 0, card: 1, cn: 1, g0: 0, g1: 0, p0: 0, p1: 0,
        v0: 0, v1: 0, unl: true, ticks: Map(), words: Set(), bits: Set(), pos: Map(),
        obs: Map(0 -> { ts: clock(w.now), tc: 0, sp: 0, ini: true }) }
      acc(setPool(w, k, p))
        .emit(ev("PoolCreatedAndInitialized", [NToken(t0), NToken(t1), NPool(k)], [fee, sp, price, t]))
    }
  }

  pure def incObs(w: World, k: Key, n: int): Res =
    if (not(hasPool(w, k))) rej(w, "noPool")
    else {
      val p = w.pools.get(k)
      val q = { ...p, cn: p.cn + n, obs: range(0, n).foldl(p.obs, (m, i) => m.put(p.cn + i, EMPTY_SLOT)) }
      acc(setPool(w, k, q))
        .emit(ev("IncreaseObservationCardinalityNext", [], [p.cn, p.cn + n]))
        .guard(p.unl, w, "locked")
        .guard(p.cn + n <= MAX_SLOTS, w, "slots")
    }

  pure def initTick(w: World, k: Key, t: int): Res =
    if (not(hasPool(w, k))) rej(w, "noPool")
    else {
      val p = w.pools.get(k)
      acc(setPool(w, k, { ...p, ticks: p.ticks.put(t, NO_TICK) }))
        .guard(not(p.ticks.keys().contains(t)), w, "exists")
        .guard(t >= MIN_TICK and t <= MAX_TICK, w, "bounds")
        .guard(fdiv(t, p.sp) * p.sp == t, w, "spacing")
    }

  pure def closeTick(w: World, k: Key, t: int): Res =
    if (not(hasPool(w, k)) or not(w.pools.getOr(k, NO_POOL).ticks.keys().contains(t))) rej(w, "missing")
    else {
      val p = w.pools.get(k)
      acc(setPool(w, k, { ...p, ticks: p.ticks.without(t) })).guard(p.ticks.get(t) == NO_TICK, w, "inUse")
    }

  pure val NO_POOL: Pool = { sp: 1, price: 0, tick: 0, liq: 0, oi: 0, card: 0, cn: 0, g0: 0, g1: 0, p0: 0, p1: 0,
    v0: 0, v1: 0, unl: false, ticks: Map(), words: Set(), bits: Set(), pos: Map(), obs: Map() }

  pure def initWord(w: World, k: Key, wd: int): Res =
    if (not(hasPool(w, k))) rej(w, "noPool")
    else {
      val p = w.pools.get(k)
      acc(setPool(w, k, { ...p, words: p.words.union(Set(wd)) }))
        .guard(not(p.words.contains(wd)), w, "exists")
        .guard(wd >= fdiv(tdiv(MIN_TICK, p.sp), WORD) and wd <= fdiv(tdiv(MAX_TICK, p.sp), WORD), w, "bounds")
    }

  pure def initPos(w: World, k: Key, r: Range): Res =
    if (not(hasPool(w, k))) rej(w, "noPool")
    else {
      val p = w.pools.get(k)
      acc(setPool(w, k, { ...p, pos: p.pos.put(r, NO_POS) }))
        .guard(p.ticks.keys().contains(r._2) and p.ticks.keys().contains(r._3), w, "noTick")
        .guard(r._2 < r._3, w, "tickOrder")
        .guard(not(hasPos(p, r)), w, "exists")
    }

  // ---------------------------------------------------------------- positions
  // Outcome of a core operation plus the amounts it moved or credited
  type Core = { r: Res, x0: int, x1: int }
  pure def coreRej(w: World, why: str): Core = { r: rej(w, why), x0: 0, x1: 0 }

  // i: what the payer did before paying
  pure def mintWith(w: World, s: str, k: Key, o: str, lo: int, hi: int, amt: int, cb: str, i: Res): Core =
    if (not(hasPool(w, k))) coreRej(w, "noPool")
    else {
      val p = w.pools.get(k)
      if (not(hasRange(p, lo, hi)) or not(hasPos(p, (o, lo, hi)))) coreRej(w, "missing")
      else if (amt <= 0 or amt > SMAX) coreRej(w, "amount")
      else {
        val m = modify(p, (o, lo, hi), amt, w.now)
        val x0 = paidBy(cb, m.a0, 0)
        val x1 = paidBy(cb, m.a1, 1)
        val q = { ...m.pool, v0: m.pool.v0 + x0, v1: m.pool.v1 + x1 }
        val r = { ...acc(setPool(i.w, k, q).credit(s, k._1, -x0).credit(s, k._2, -x1)), ev: i.ev, segs: i.segs }
          .emit(ev("MintEvent", [NPool(k), NUser(s), NUser(o)], [lo, hi, amt, m.a0, m.a1]))
          .guard(p.unl, w, "locked")
          .guard(m.ok, w, "arith")
          .guard(i.ok, w, "nested")
          .guard(canPay(i.w, s, k._1, p.v0, x0) and canPay(i.w, s, k._2, p.v1, x1), w, "funds")
          .guard(not(reentrant(cb)), w, "reentered")
          .guard(x0 >= m.a0 and x1 >= m.a1, w, "unpaid")
        { r: r, x0: m.a0, x1: m.a1 }
      }
    }
  pure def mint(w: World, s: str, k: Key, o: str, lo: int, hi: int, amt: int, cb: str): Core =
    mintWith(w, s, k, o, lo, hi, amt, cb, acc(w))

  pure def burn(w: World, k: Key, o: str, lo: int, hi: int, amt: int): Core =
    if (not(hasPool(w, k))) coreRej(w, "noPool")
    else {
      val p = w.pools.get(k)
      if (not(hasRange(p, lo, hi)) or not(hasPos(p, (o, lo, hi)))) coreRej(w, "missing")
      else if (amt < 0 or amt > SMAX) coreRej(w, "amount")
      else {
        val m = modify(p, (o, lo, hi), -amt, w.now)
        val ps = m.pool.pos.get((o, lo, hi))
        val q = { ...m.pool, pos: m.pool.pos.put((o, lo, hi), { ...ps, o0: wrap(ps.o0 + m.a0), o1: wrap(ps.o1 + m.a1) }) }
        val r = acc(setPool(w, k, q))
          .emit(ev("BurnEvent", [NPool(k), NUser(o)], [lo, hi, amt, m.a0, m.a1]))
          .guard(p.unl, w, "locked")
          .guard(m.ok, w, "arith")
        { r: r, x0: m.a0, x1: m.a1 }
      }
    }

  pure def collect(w: World, k: Key, o: str, lo: int, hi: int, a0: int, a1: int, dst: str): Core =
    if (not(hasPool(w, k))) coreRej(w, "noPool")
    else {
      val p = w.pools.get(k)
      if (not(p.ticks.keys().contains(lo)) or not(p.ticks.keys().contains(hi)) or not(hasPos(p, (o, lo, hi))))
        coreRej(w, "missing")
      else {
        val ps = p.pos.get((o, lo, hi))
        val x0 = min2(a0, ps.o0)
        val x1 = min2(a1, ps.o1)
        val q = { ...p, v0: p.v0 - x0, v1: p.v1 - x1,
                  pos: p.pos.put((o, lo, hi), { ...ps, o0: ps.o0 - x0, o1: ps.o1 - x1 }) }
        val r = acc(setPool(w, k, q).credit(dst, k._1, x0).credit(dst, k._2, x1))
          .emit(ev("CollectEvent", [NPool(k), NUser(o)], [lo, hi, x0, x1]))
          .guard(p.unl, w, "locked")
          .guard(canReceive(w, dst, k._1, p.v0, x0) and canReceive(w, dst, k._2, p.v1, x1), w, "funds")
        { r: r, x0: x0, x1: x1 }
      }
    }

  // ---------------------------------------------------------------- swaps
  // Core with x0 = input, x1 = output
  pure def swapWith(w: World, s: str, k: Key, zfo: bool, amt: int, lim: int, cb: str, i: Res): Core =
    if (not(hasPool(w, k))) coreRej(w, "noPool")
    else if (amt == 0) coreRej(w, "zero")
    else {
      val p = w.pools.get(k)
      if (not(p.unl)) coreRej(w, "locked")
      else if (not(limitOk(p, zfo, lim))) coreRej(w, "limit")
      else {
        val e = swapPool(p, k._3, w.fac.fp, zfo, amt, lim, w.now)
        val paid = paidBy(cb, e.in, if (zfo) 0 else 1)
        val tIn = if (zfo) k._1 else k._2
        val tOut = if (zfo) k._2 else k._1
        val vIn = if (zfo) p.v0 else p.v1
        val vOut = if (zfo) p.v1 else p.v0
        val q = if (zfo) { ...e.pool, v0: vIn + paid, v1: vOut - e.out } else { ...e.pool, v0: vOut - e.out, v1: vIn + paid }
        val d0 = if (zfo) e.in else -e.out
        val d1 = if (zfo) -e.out else e.in
        val base = acc(setPool(i.w, k, q).credit(s, tOut, e.out).credit(s, tIn, -paid))
        val r = { ...base, path: [e.path].concat(i.path), ev: i.ev, segs: e.segs.foldl(i.segs, (l, g) => l.append((k, g))) }
          .emit(ev("SwapEvent", [NPool(k), NUser(s), NWal((s, k._1)), NWal((s, k._2))],
                   [d0, d1, e.pool.price, e.pool.liq, e.pool.tick]))
          .guard(e.ok, w, "arith")
          .guard(canReceive(w, s, tOut, vOut, e.out), w, "funds")
          .guard(i.ok, w, "nested")
          .guard(canPay(i.w, s, tIn, vIn, paid), w, "funds")
          .guard(not(reentrant(cb)), w, "reentered")
          .guard(paid >= e.in, w, "unpaid")
        { r: r, x0: e.in, x1: e.out }
      }
    }

  pure def swap(w: World, s: str, k: Key, zfo: bool, amt: int, lim: int, cb: str): Core =
    swapWith(w, s, k, zfo, amt, lim, cb, acc(w))
  // a small swap on the first other pool
  pure def keyOrder(k: Key): int = (k._1 * 100 + k._2) * 2^40 + k._3
  pure def otherSwap(w: World, s: str, k: Key): Res = {
    val k2 = w.pools.keys().exclude(Set(k)).fold(NO_KEY, (a, b) => if (a == NO_KEY or keyOrder(b) < keyOrder(a)) b else a)
    val zfo = w.now % 2 == 0
    if (k2 == NO_KEY) rej(w, "noPool") else swap(w, s, k2, zfo, 1000, if (zfo) MIN_PRICE + 1 else MAX_PRICE - 1, "core").r
  }

  pure def exactIn(w: World, s: str, k: Key, zfo: bool, amt: int, lim: int): Core =
    if (amt > SMAX) coreRej(w, "amount")
    else swap(w, s, k, zfo, amt, if (lim != 0) lim else if (zfo) MIN_PRICE + 1 else MAX_PRICE - 1, "core")

  pure def exSingle(w: World, s: str, k: Key, zfo: bool, amt: int, min: int, lim: int, dl: int): Res = {
    val c = exactIn(w, s, k, zfo, amt, lim)
    c.r.guard(w.now <= dl, w, "deadline").guard(c.x1 >= min, w, "slippage")
  }

  pure def exIn(w: World, s: str, hops: List[(Key, bool)], amt: int, min: int, dl: int): Res = {
    // accumulated outcome, amount and token carried to the next hop (-1: any)
    val e = hops.foldl((acc(w), amt, -1), (a, h) => {
      val k = h._1
      val tIn = if (h._2) k._1 else k._2
      val tOut = if (h._2) k._2 else k._1
      if (not(a._1.ok)) a
      else if (a._3 >= 0 and a._3 != tIn) ({ ...a._1, path: a._1.path.append([]) }.guard(false, w, "tokenChain"), 0, tOut)
      else {
        val c = exactIn(a._1.w, s, k, h._2, a._2, 0)
        val joined = { ...c.r, path: a._1.path.concat(c.r.path), ev: a._1.ev.concat(c.r.ev), segs: a._1.segs.concat(c.r.segs) }
        // (the instruction counts the accounts of every hop but the last in one byte)
        val last = a._1.path.length() + 1 == hops.length()
        (joined.guard(c.r.ok and (last or c.r.path.select(l => l.length() > 255) == []), w, "hop"), c.x1, tOut)
      }
    })
    val r = if (e._1.ok) e._1 else { ...e._1, w: w, ev: [], segs: [] }
    r.guard(w.now <= dl, w, "deadline").guard(e._2 >= min, w, "slippage")
  }

  // ---------------------------------------------------------------- NFT positions
  pure def hasNft(w: World, n: int): bool = w.nfts.keys().contains(n)
  // the presented account is for this NFT, holds it, and the signer owns it or is its delegate
  pure def authorized(w: World, n: int, s: str, an: int, au: str): bool = and {
    an == n,
    hasNft(w, an),
    {
      val a = w.nfts.get(an).acc.getOr(au, { amt: 0, del: "", damt: 0 })
      a.amt == 1 and (au == s or (a.del == s and a.damt > 0))
    }
  }
  pure def addLiquidity(w: World, s: str, k: Key, lo: int, hi: int, d0: int, d1: int): (Core, int) =
    if (not(hasPool(w, k))) (coreRej(w, "noPool"), 0)
    else {
      val l = liquidityFor(w.pools.get(k).price, min2(priceAt(lo), priceAt(hi)), max2(priceAt(lo), priceAt(hi)), d0, d1)
      if (lo >= hi or not(l._2)) (coreRej(w, "arith"), 0)
      else (mint(w, s, k, FAC, lo, hi, l._1, "core"), l._1)
    }

  pure def nMint(w: World, s: str, dst: str, n: int, k: Key, lo: int, hi: int,
                 d0: int, d1: int, m0: int, m1: int, dl: int): Res = {
    val a = addLiquidity(w, s, k, lo, hi, d0, d1)
    val c = a._1
    if (hasNft(w, n)) rej(w, "exists")
    else if (not(c.r.ok)) c.r
    else {
      val ps = c.r.w.pools.get(k).pos.get((FAC, lo, hi))
      val nft: Nft = { pool: k, lo: lo, hi: hi, liq: a._2, f0: ps.f0, f1: ps.f1, o0: 0, o1: 0, sup: 1, auth: true,
                       acc: Map(dst -> { amt: 1, del: "", damt: 0 }) }
      { ...c.r, w: { ...c.r.w, nfts: c.r.w.nfts.put(n, nft) } }
        .emit(ev("IncreaseLiquidityEvent", [NMint(n)], [a._2, c.x0, c.x1]))
        .guard(w.now <= dl, w, "deadline")
        .guard(c.x0 >= m0 and c.x1 >= m1, w, "slippage")
    }
  }

  pure def nMeta(w: World, n: int): Res =
    if (not(hasNft(w, n))) rej(w, "missing")
    else acc({ ...w, nfts: w.nfts.put(n, { ...w.nfts.get(n), auth: false }) }).guard(w.nfts.get(n).auth, w, "noAuthority")

  pure def bound(w: World, n: int, k: Key, lo: int, hi: int): bool =
    w.nfts.get(n).pool == k and w.nfts.get(n).lo == lo and w.nfts.get(n).hi == hi

  // credit the NFT with the fees of its liquidity up to the growth recorded in the pooled position
  pure def nCredit(t: Nft, ps: Pos): Nft =
    { ...t, o0: wrap(t.o0 + accrued(ps.f0, t.f0, t.liq)), o1: wrap(t.o1 + accrued(ps.f1, t.f1, t.liq)), f0: ps.f0, f1: ps.f1 }
  pure def nCreditOk(t: Nft, ps: Pos): bool = fits(accrued(ps.f0, t.f0, t.liq)) and fits(accrued(ps.f1, t.f1, t.liq))

  pure def nInc(w: World, s: str, n: int, k: Key, lo: int, hi: int,
                d0: int, d1: int, m0: int, m1: int, dl: int): Res =
    if (not(hasNft(w, n))) rej(w, "missing")
    else {
      val a = addLiquidity(w, s, k, lo, hi, d0, d1)
      val c = a._1
      if (not(c.r.ok)) c.r
      else {
        val ps = c.r.w.pools.get(k).pos.get((FAC, lo, hi))
        val t = nCredit(w.nfts.get(n), ps)
        { ...c.r, w: { ...c.r.w, nfts: c.r.w.nfts.put(n, { ...t, liq: t.liq + a._2 }) } }
          .emit(ev("IncreaseLiquidityEvent", [NMint(n)], [a._2, c.x0, c.x1]))
          .guard(bound(w, n, k, lo, hi), w, "unbound")
          .guard(nCreditOk(w.nfts.get(n), ps), w, "arith")
          .guard(w.now <= dl, w, "deadline")
          .guard(c.x0 >= m0 and c.x1 >= m1, w, "slippage")
      }
    }

  pure def nDec(w: World, s: str, n: int, an: int, au: str, k: Key, lo: int, hi: int,
                liq: int, m0: int, m1: int, dl: int): Res =
    if (not(hasNft(w, n))) rej(w, "missing")
    else {
      val c = burn(w, k, FAC, lo, hi, liq)
      if (not(c.r.ok)) c.r
      else {
        val ps = c.r.w.pools.get(k).pos.get((FAC, lo, hi))
        val t = nCredit(w.nfts.get(n), ps)
        val t2 = { ...t, liq: t.liq - liq, o0: wrap(t.o0 + c.x0), o1: wrap(t.o1 + c.x1) }
        { ...c.r, w: { ...c.r.w, nfts: c.r.w.nfts.put(n, t2) } }
          .emit(ev("DecreaseLiquidityEvent", [NMint(n)], [liq, c.x0, c.x1]))
          .guard(authorized(w, n, s, an, au), w, "unauthorized")
          .guard(bound(w, n, k, lo, hi), w, "unbound")
          .guard(liq > 0 and liq <= t.liq, w, "amount")
          .guard(nCreditOk(w.nfts.get(n), ps), w, "arith")
          .guard(w.now <= dl, w, "deadline")
          .guard(c.x0 >= m0 and c.x1 >= m1, w, "slippage")
      }
    }

  pure def nCol(w: World, s: str, n: int, an: int, au: str, k: Key, lo: int, hi: int,
                a0: int, a1: int, dst: str): Res =
    if (not(hasNft(w, n))) rej(w, "missing")
    else {
      val t0 = w.nfts.get(n)
      val poke = if (t0.liq > 0) burn(w, k, FAC, lo, hi, 0) else { r: acc(w), x0: 0, x1: 0 }
      if (not(poke.r.ok) or not(hasPool(w, k)) or not(hasPos(w.pools.get(k), (FAC, lo, hi)))) rej(w, "missing")
      else {
        val ps = poke.r.w.pools.get(k).pos.get((FAC, lo, hi))
        val t = if (t0.liq > 0) nCredit(t0, ps) else t0
        val x0 = min2(a0, t.o0)
        val x1 = min2(a1, t.o1)
        val c = collect(poke.r.w, k, FAC, lo, hi, x0, x1, dst)
        val r = { ...c.r, ev: poke.r.ev.concat(c.r.ev),
          w: { ...c.r.w, nfts: c.r.w.nfts.put(n, { ...t, o0: t.o0 - x0, o1: t.o1 - x1 }) } }
        (if (c.r.ok) r else { ...c.r, w: w })
          .emit(ev("CollectTokenizedEvent", [NMint(n), NWal((dst, k._1)), NWal((dst, k._2))], [x0, x1]))
          .guard(authorized(w, n, s, an, au), w, "unauthorized")
          .guard(bound(w, n, k, lo, hi), w, "unbound")
          .guard(a0 > 0 or a1 > 0, w, "amount")
          .guard(nCreditOk(t0, ps) and fits(t0.o0 + accrued(ps.f0, t0.f0, t0.liq)), w, "arith")
      }
    }

  // ---------------------------------------------------------------- environment
  pure def nAcc(t: Nft, u: str): NAcc = t.acc.getOr(u, { amt: 0, del: "", damt: 0 })

  // SPL transfer of the NFT by its holder or delegate
  pure def nftTransfer(w: World, s: str, n: int, from: str, dst: str): Res =
    if (not(hasNft(w, n))) rej(w, "missing")
    else {
      val t = w.nfts.get(n)
      val a = nAcc(t, from)
      val byDel = a.del == s
      val a2 = if (byDel) { amt: 0, del: if (a.damt <= 1) "" else a.del, damt: a.damt - 1 } else { ...a, amt: 0 }
      val b = nAcc(t, dst)
      // (a transfer to the same account changes nothing)
      acc(if (from == dst) w else { ...w, nfts: w.nfts.put(n, { ...t, acc: t.acc.put(from, a2).put(dst, { ...b, amt: 1 }) }) })
        .guard(t.acc.keys().contains(from) and a.amt == 1, w, "notHeld")
        .guard((byDel and a.damt >= 1) or (not(byDel) and s == from), w, "unauthorized")
    }
  pure def nftApprove(w: World, s: str, n: int, dst: str, amt: int): Res =
    if (not(hasNft(w, n)) or not(w.nfts.get(n).acc.keys().contains(s))) rej(w, "missing")
    else {
      val t = w.nfts.get(n)
      acc({ ...w, nfts: w.nfts.put(n, { ...t, acc: t.acc.put(s, { amt: nAcc(t, s).amt, del: dst, damt: amt }) }) })
    }
  pure def nftRevoke(w: World, s: str, n: int): Res =
    if (not(hasNft(w, n)) or not(w.nfts.get(n).acc.keys().contains(s))) rej(w, "missing")
    else {
      val t = w.nfts.get(n)
      acc({ ...w, nfts: w.nfts.put(n, { ...t, acc: t.acc.put(s, { amt: nAcc(t, s).amt, del: "", damt: 0 }) }) })
    }
  pure def donate(w: World, s: str, k: Key, side: int, amt: int): Res =
    if (not(hasPool(w, k))) rej(w, "noPool")
    else {
      val p = w.pools.get(k)
      val t = if (side == 0) k._1 else k._2
      val q = if (side == 0) { ...p, v0: p.v0 + amt } else { ...p, v1: p.v1 + amt }
      acc(setPool(w, k, q).credit(s, t, -amt))
        .guard(canPay(w, s, t, if (side == 0) p.v0 else p.v1, amt), w, "funds")
    }

  // a callback invoked by a user moves only the user's own tokens, as a gift to the pool
  pure def payMint(w: World, s: str, k: Key, a0: int, a1: int): Res =
    if (not(hasPool(w, k))) rej(w, "noPool")
    else {
      val p = w.pools.get(k)
      acc(setPool(w, k, { ...p, v0: p.v0 + a0, v1: p.v1 + a1 }).credit(s, k._1, -a0).credit(s, k._2, -a1))
        .guard(canPay(w, s, k._1, p.v0, a0) and canPay(w, s, k._2, p.v1, a1), w, "funds")
    }
  // zfo: the input side is token 0. Pays the input side's amount, or nothing when that is not the side named by d0
  pure def paySwap(w: World, s: str, k: Key, zfo: bool, d0: int, d1: int): Res =
    if (zfo) payMint(w, s, k, max2(d0, 0), 0) else payMint(w, s, k, 0, if (d0 > 0) 0 else wrap(d1))

  // the in-range accumulators as the library reports them
  pure def snap(w: World, k: Key, lo: int, hi: int): Res =
    if (not(hasPool(w, k)) or not(w.pools.getOr(k, NO_POOL).ticks.keys().contains(lo))
        or not(w.pools.getOr(k, NO_POOL).ticks.keys().contains(hi))) rej(w, "missing")
    else {
      val x = snapshotInside(w.pools.get(k), lo, hi, w.now)
      acc(w).emit(ev("Snapshot", [NPool(k)], [x.tc, x.sp, x.so]))
    }

  // ---------------------------------------------------------------- one transaction
  pure def execOp(w: World, op: Op): Res = withRent(w, op, effect(w, op))
  pure def effect(w: World, op: Op): Res = match op {
    | OInitFactory(o) => initFactory(w, o.s)
    | OSetOwner(o) => setOwner(w, o.s, o.dst)
    | OEnableFee(o) => enableFee(w, o.s, o.fee, o.spacing)
    | OSetFeeProt(o) => setFeeProt(w, o.s, o.v)
    | OColProt(o) => colProt(w, o.s, o.p, o.a0, o.a1, o.r)
    | OCreatePool(o) => createPool(w, o.s, o.t0, o.t1, o.fee, o.price)
    | OIncObs(o) => incObs(w, o.p, o.n)
    | OInitTick(o) => initTick(w, o.p, o.t)
    | OCloseTick(o) => closeTick(w, o.p, o.t)
    | OInitWord(o) => initWord(w, o.p, o.wd)
    | OInitPos(o) => initPos(w, o.p, (o.o, o.lo, o.hi))
    | OMint(o) => if (o.cb == "other") mintWith(w, o.s, o.p, o.o, o.lo, o.hi, o.amt, o.cb, otherSwap(w, o.s, o.p)).r
                  else mint(w, o.s, o.p, o.o, o.lo, o.hi, o.amt, o.cb).r
    | OBurn(o) => burn(w, o.p, o.o, o.lo, o.hi, o.amt).r.guard(o.s == o.o, w, "notOwner")
    | OCollect(o) => collect(w, o.p, o.o, o.lo, o.hi, o.a0, o.a1, o.r).r.guard(o.s == o.o, w, "notOwner")
    | OSwap(o) => if (o.cb == "other") {
                    // (the output has arrived when the payer is called)
                    val got = swap(w, o.s, o.p, o.zfo, o.amt, o.lim, "exact").x1
                    val tOut = if (o.zfo) o.p._2 else o.p._1
                    val i = otherSwap(w.credit(o.s, tOut, got), o.s, o.p)
                    swapWith(w, o.s, o.p, o.zfo, o.amt, o.lim, o.cb, { ...i, w: i.w.credit(o.s, tOut, -got) }).r
                  }
                  else swap(w, o.s, o.p, o.zfo, o.amt, o.lim, o.cb).r
    | ONMint(o) => nMint(w, o.s, o.r, o.n, o.p, o.lo, o.hi, o.d0, o.d1, o.m0, o.m1, o.dl)
    | ONMeta(o) => nMeta(w, o.n)
    | ONInc(o) => nInc(w, o.s, o.n, o.p, o.lo, o.hi, o.d0, o.d1, o.m0, o.m1, o.dl)
    | ONDec(o) => nDec(w, o.s, o.n, o.an, o.au, o.p, o.lo, o.hi, o.liq, o.m0, o.m1, o.dl)
    | ONCol(o) => nCol(w, o.s, o.n, o.an, o.au, o.p, o.lo, o.hi, o.a0, o.a1, o.r)
    | OExSingle(o) => exSingle(w, o.s, o.p, o.zfo, o.amt, o.min, o.lim, o.dl)
    | OExIn(o) => exIn(w, o.s, o.hops, o.amt, o.min, o.dl)
    | OPayMint(o) => payMint(w, o.s, o.p, o.a0, o.a1)
    | OPaySwap(o) => paySwap(w, o.s, o.p, o.zfo, o.d0, o.d1)
    | ETime(o) => acc({ ...w, now: w.now + o.dt })
    | EXfer(o) => nftTransfer(w, o.s, o.n, o.from, o.dst)
    | EAppr(o) => nftApprove(w, o.s, o.n, o.dst, o.amt)
    | ERev(o) => nftRevoke(w, o.s, o.n)
    | EDonate(o) => donate(w, o.s, o.p, o.side, o.amt)
    | EFund(o) => acc(w)
    | ESnap(o) => snap(w, o.p, o.lo, o.hi)
  }

  // ---------------------------------------------------------------- accounts an operation may need
  // the oracle slot a liquidity operation may open
  pure def slotPath(w: World, k: Key): List[List[(str, int)]] =
    if (hasPool(w, k)) {
      val p = w.pools.get(k)
      if (opensSlot(p, w.now)) [[("o", nextSlot(p))]] else [[]]
    } else [[]]
  // what a rejected swap would visit, were it not rejected
  pure def swapPath(w: World, k: Key, zfo: bool, amt: int, lim: int): List[List[(str, int)]] =
    if (hasPool(w, k) and amt != 0) {
      val p = w.pools.get(k)
      val l = if (limitOk(p, zfo, lim)) lim
              else if (zfo) max2(MIN_PRICE + 1, priceAt(max2(MIN_TICK, p.tick - p.sp * WORD)))
              else min2(MAX_PRICE - 1, priceAt(min2(MAX_TICK, p.tick + p.sp * WORD)))
      if (limitOk(p, zfo, l)) [swapPool(p, k._3, w.fac.fp, zfo, if (amt > SMAX) SMAX else amt, l, w.now).path] else [[]]
    } else [[]]
  pure def opPath(w: World, op: Op, r: Res): List[List[(str, int)]] = match op {
    | OMint(o) => slotPath(w, o.p).concat(if (o.cb == "other") otherSwap(w, o.s, o.p).path else [])
    | OBurn(o) => slotPath(w, o.p)
    | ONMint(o) => slotPath(w, o.p)
    | ONInc(o) => slotPath(w, o.p)
    | ONDec(o) => slotPath(w, o.p)
    | OSwap(o) => if (r.path == []) swapPath(w, o.p, o.zfo, o.amt, o.lim) else r.path
    | OExSingle(o) => if (r.path == []) swapPath(w, o.p, o.zfo, o.amt, o.lim) else r.path
    | _ => r.path
  }

  // A substituted account always means rejection without effect.
  pure def exec(w: World, tx: Tx): Res = {
    val r0 = execOp(w, tx.op)
    val r = { ...r0, path: opPath(w, tx.op, r0) }
    if (tx.sub == NO_SUB) r else r.guard(false, w, "substituted")
  }

  pure val EMPTY: World = { now: 0, fac: { ini: false, owner: "", fp: 0 }, tiers: Map(), pools: Map(), nfts: Map(), wal: Map(), sol: Map(), gift: Map() }
}
