// The properties, as predicates over one transition and over the history recorded in ghost variables.
// Every predicate is independent of how the operations are defined: it is stated on the states before
// and after, the transaction, and its announced events.
module props {
  import numerics.* from "./numerics"
  import clmm.* from "./clmm"
  import system.* from "./system"

  // ---------------------------------------------------------------- ghosts
  // exact values are kept as integers scaled by S; x: withdrawn less principal; n: roundings so far
  pure val S = 2^64
  // u0, u1: growth per unit of liquidity since the last credit; lost: a whole turn of the counter went uncredited
  type Due = { d0: int, d1: int, x0: int, x1: int, s: int, n: int, u0: int, u1: int, lost: bool }
  type Integral = { tc: int, sp: int, n: int }
  type InRange = { start: Snap, tc: int, sp: int, so: int, n: int }
  type Ghost = {
    tot: int -> int,                         // supply of each token
    due: (Key, Range) -> Due,                // exact fee entitlement of each position
    ndue: int -> Due,                        // exact fee entitlement of each NFT
    sum: Key -> Integral,                    // exact oracle integrals
    rng: (Key, int, int) -> InRange,         // time spent in a range, since both its ticks are in use
    prot: Key -> { d0: int, d1: int, x0: int, x1: int }   // protocol fees accrued and withdrawn
  }
  pure val NO_DUE: Due = { d0: 0, d1: 0, x0: 0, x1: 0, s: 0, n: 0, u0: 0, u1: 0, lost: false }
  pure val TOKENS = Set(0, 1, 2)

  pure def supply(w: World, t: int): int =
    w.wal.keys().filter(x => x._2 == t).sum(x => w.wal.get(x))
      + w.pools.keys().sum(k => if (k._1 == t) w.pools.get(k).v0 else if (k._2 == t) w.pools.get(k).v1 else 0)

  pure def ghost0(w: World): Ghost =
    { tot: TOKENS.mapBy(t => supply(w, t)), due: Map(), ndue: Map(), sum: Map(), rng: Map(), prot: Map() }

  // pool, range and liquidity taken out by the operation; nothing is (NO_KEY, ...)
  pure def taken(op: Op): (Key, Range, int) = match op {
    | OBurn(o) => (o.p, (o.o, o.lo, o.hi), o.amt)
    | ONDec(o) => (o.p, (FAC, o.lo, o.hi), o.liq)
    | _ => (NO_KEY, ("", 0, 0), 0)
  }
  // position collected from
  pure def drawn(op: Op): (Key, Range) = match op {
    | OCollect(o) => (o.p, (o.o, o.lo, o.hi))
    | ONCol(o) => (o.p, (FAC, o.lo, o.hi))
    | _ => (NO_KEY, ("", 0, 0))
  }
  pure def nftOf(op: Op): int = match op {
    | ONInc(o) => o.n
    | ONDec(o) => o.n
    | ONCol(o) => o.n
    | ONMint(o) => o.n
    | ONMeta(o) => o.n
    | _ => -1
  }
  // value of liquidity l in the range at the pool's price
  pure def worth(p: Pool, lo: int, hi: int, l: int, up: bool): (int, int) = {
    val pa = priceAt(lo)
    val pb = priceAt(hi)
    if (p.tick < lo) (amount0(pa, pb, l, up), 0)
    else if (p.tick < hi) (amount0(p.price, pb, l, up), amount1(pa, p.price, l, up))
    else (0, amount1(pa, pb, l, up))
  }
  pure def inside(p: Pool, lo: int, hi: int): (int, int) =
    feeInside(p.ticks.get(lo), p.ticks.get(hi), lo, hi, p.tick, p.g0, p.g1)
  pure def uncredited(p: Pool, r: Range): (int, int) = {
    val x = p.pos.get(r)
    if (x.liq == 0) (0, 0)
    else { val i = inside(p, r._2, r._3) (accrued(i._1, x.f0, x.liq), accrued(i._2, x.f1, x.liq)) }
  }

  pure def share(d: Due, g: Seg, l: int): Due = {
    val x = (g.lp * S * l) / g.liq
    val y = (g.lp * Q) / g.liq
    val u0 = if (g.zfo) d.u0 + y else d.u0
    val u1 = if (g.zfo) d.u1 else d.u1 + y
    { ...d, d0: if (g.zfo) d.d0 + x else d.d0, d1: if (g.zfo) d.d1 else d.d1 + x, s: d.s + l * Q + 1,
      u0: u0, u1: u1, lost: d.lost or u0 >= WRAP or u1 >= WRAP }
  }
  pure def usedTick(p: Pool, t: int): bool = p.ticks.keys().contains(t) and p.ticks.get(t).gross > 0

  pure def ghost(g: Ghost, old: World, tx: Tx, r: Res): Ghost =
    if (not(r.ok)) g
    else {
      val w = r.w
      val dt = w.now - old.now
      // fees of the swap's segments
      val due1 = r.segs.foldl(g.due, (m, s) =>
        if (s._2.lp == 0 or s._2.liq == 0) m
        else w.pools.get(s._1).pos.keys().filter(x => x._2 <= s._2.tick and s._2.tick < x._3 and w.pools.get(s._1).pos.get(x).liq > 0)
          .fold(m, (n, x) => n.put((s._1, x), share(n.getOr((s._1, x), NO_DUE), s._2, w.pools.get(s._1).pos.get(x).liq))))
      val ndue1 = r.segs.foldl(g.ndue, (m, s) =>
        if (s._2.lp == 0 or s._2.liq == 0) m
        else w.nfts.keys().filter(n => { val t = w.nfts.get(n)
            t.pool == s._1 and t.lo <= s._2.tick and s._2.tick < t.hi and t.liq > 0 })
          .fold(m, (q, n) => q.put(n, share(q.getOr(n, NO_DUE), s._2, w.nfts.get(n).liq))))
      // one rounding per update of a position; principal and withdrawals
      val t = taken(tx.op)
      val d = drawn(tx.op)
      val prin = if (t._1 != NO_KEY and t._3 > 0) worth(old.pools.get(t._1), t._2._2, t._2._3, t._3, false) else (0, 0)
      val out = if (d._1 != NO_KEY) (old.pools.get(d._1).v0 - w.pools.get(d._1).v0, old.pools.get(d._1).v1 - w.pools.get(d._1).v1)
                else (0, 0)
      val at = if (t._1 != NO_KEY) (t._1, t._2) else d
      val changed = w.pools.keys().filter(k => old.pools.keys().contains(k) and old.pools.get(k).pos != w.pools.get(k).pos)
      val due2 = changed.fold(due1, (m, k) =>
        w.pools.get(k).pos.keys().filter(x => hasPos(old.pools.get(k), x) and old.pools.get(k).pos.get(x) != w.pools.get(k).pos.get(x))
          .fold(m, (n, x) => {
            val y = n.getOr((k, x), NO_DUE)
            val a = old.pools.get(k).pos.get(x)
            val b = w.pools.get(k).pos.get(x)
            n.put((k, x), { ...y, n: y.n + 1, u0: if (a.f0 == b.f0) y.u0 else 0, u1: if (a.f1 == b.f1) y.u1 else 0 }) }))
      val due3 = if (at._1 == NO_KEY) due2
        else {
          val y = due2.getOr(at, NO_DUE)
          due2.put(at, { ...y, x0: y.x0 + out._1 - prin._1, x1: y.x1 + out._2 - prin._2 })
        }
      val n = nftOf(tx.op)
      val ndue2 = if (n < 0 or not(hasNft(old, n))) ndue1
        else {
          val y = ndue1.getOr(n, NO_DUE)
          // what the record was charged, also where the pooled position paid some units less
          val c = if (d._1 == NO_KEY) (0, 0) else charged(r.ev)
          ndue1.put(n, { ...y, x0: y.x0 + c._1 - prin._1, x1: y.x1 + c._2 - prin._2, n: y.n + 1,
            u0: if (old.nfts.get(n).f0 == w.nfts.get(n).f0) y.u0 else 0, u1: if (old.nfts.get(n).f1 == w.nfts.get(n).f1) y.u1 else 0 })
        }
      // integrals, with the state in force during the elapsed time
      val sum1 = w.pools.keys().fold(g.sum, (m, k) =>
        if (not(old.pools.keys().contains(k))) m.put(k, { tc: 0, sp: 0, n: 0 })
        else {
          val p = old.pools.get(k)
          val x = m.get(k)
          m.put(k, { tc: x.tc + p.tick * dt, sp: x.sp + (dt * Q * Q) / max2(p.liq, 1),
                     n: x.n + (if (dt > 0) 2 else 0) + (if (p.obs != w.pools.get(k).obs) 2 else 0) })
        })
      val rng1 = g.rng.keys().filter(x => usedTick(w.pools.get(x._1), x._2) and usedTick(w.pools.get(x._1), x._3))
        .mapBy(x => {
          val p = old.pools.get(x._1)
          val y = g.rng.get(x)
          val y1 = if (dt > 0 and x._2 <= p.tick and p.tick < x._3)
            { ...y, tc: y.tc + p.tick * dt, sp: y.sp + (dt * Q * Q) / max2(p.liq, 1), so: y.so + dt } else y
          { ...y1, n: y1.n + 2 }
        })
      val rng2 = changed.fold(rng1, (m, k) => {
        val p = w.pools.get(k)
        p.pos.keys().filter(x => p.pos.get(x).liq > 0).fold(m, (q, x) =>
          if (q.keys().contains((k, x._2, x._3))) q
          else q.put((k, x._2, x._3), { start: snapshotInside(p, x._2, x._3, w.now), tc: 0, sp: 0, so: 0, n: 2 }))
      })
      // protocol fees
      val prot1 = r.segs.foldl(g.prot, (m, s) => {
        val y = m.getOr(s._1, { d0: 0, d1: 0, x0: 0, x1: 0 })
        val fee = s._2.lp + s._2.proto
        val cut = fee / old.fac.fp
        m.put(s._1, if (s._2.zfo) { ...y, d0: y.d0 + cut } else { ...y, d1: y.d1 + cut })
      })
      val prot2 = match tx.op {
        | OColProt(o) => {
            val y = prot1.getOr(o.p, { d0: 0, d1: 0, x0: 0, x1: 0 })
            prot1.put(o.p, { ...y, x0: y.x0 + old.pools.get(o.p).v0 - w.pools.get(o.p).v0,
                                   x1: y.x1 + old.pools.get(o.p).v1 - w.pools.get(o.p).v1 })
          }
        | _ => prot1
      }
      { tot: g.tot, due: due3, ndue: ndue2, sum: sum1, rng: rng2, prot: prot2 }
    }
  // amounts announced by the collection from an NFT
  pure def charged(evs: List[Ev]): (int, int) =
    evs.foldl((0, 0), (a, e) => if (e.n == "CollectTokenizedEvent") (e.v[0], e.v[1]) else a)

  // ---------------------------------------------------------------- predicates
  pure def between(x: int, due: int, slack: int): bool = x * S <= due and due - x * S <= slack

  pure def entitled(d: Due, got0: int, got1: int): bool =
    d.lost or (between(got0 + d.x0, d.d0 + S / 2, d.s + (d.n + 2) * S)
               and between(got1 + d.x1, d.d1 + S / 2, d.s + (d.n + 2) * S))

  pure def C01(p: Pool): bool = {
    val claims = p.pos.keys().fold((p.p0, p.p1), (a, r) => {
      val x = p.pos.get(r)
      val u = uncredited(p, r)
      val v = if (x.liq > 0) worth(p, r._2, r._3, x.liq, false) else (0, 0)
      (a._1 + x.o0 + u._1 + v._1, a._2 + x.o1 + u._2 + v._2)
    })
    p.v0 >= claims._1 and p.v1 >= claims._2
  }
  pure def C02(p: Pool): bool =
    p.liq == p.pos.keys().filter(r => r._2 <= p.tick and p.tick < r._3).sum(r => p.pos.get(r).liq)
  pure def C03(p: Pool): bool = and {
    p.ticks.keys().forall(t => {
      val x = p.ticks.get(t)
      val lo = p.pos.keys().filter(r => r._2 == t).sum(r => p.pos.get(r).liq)
      val hi = p.pos.keys().filter(r => r._3 == t).sum(r => p.pos.get(r).liq)
      and { x.gross == lo + hi, x.net == lo - hi, x.gross > 0 or x == NO_TICK,
            p.bits.contains(compressed(t, p.sp)) == (x.gross > 0) }
    }),
    p.bits.forall(b => p.ticks.keys().contains(b * p.sp) and p.words.contains(fdiv(b, WORD))),
    p.pos.keys().forall(r => p.pos.get(r).liq == 0 or (p.ticks.keys().contains(r._2) and p.ticks.keys().contains(r._3)))
  }
  // the current tick contains the price; at the exact price of a tick crossed downwards it is the one below
  pure def C04(p: Pool): bool =
    priceAt(p.tick) <= p.price and (p.tick == MAX_TICK or p.price <= priceAt(p.tick + 1)) and p.price >= MIN_PRICE and p.price < MAX_PRICE
  pure def C15(p: Pool): bool = and {
    p.oi < p.card, p.card <= p.cn,
    p.obs.keys() == range(0, p.cn).foldl(Set(), (s, i) => s.union(Set(i))),
    // slots in use are in time order ending at the writer; slots not yet in use are empty
    range(1, p.card).foldl(true, (b, i) => {
      val x = p.obs.get((p.oi + i) % p.card)
      val y = p.obs.get((p.oi + i + 1) % p.card)
      val later = clock(y.ts - x.ts)
      b and (not(x.ini) or (y.ini and later > 0 and 2 * later < TIME and (y.ts < x.ts or x.ts / PARTITION < y.ts / PARTITION)))
    }),
    p.obs.get(p.oi).ini,
    p.obs.keys().forall(i => i < p.card or p.obs.get(i) == EMPTY_SLOT)
  }

  // every position can leave, unless somebody stacks more liquidity on a tick than a signed counter holds
  pure def C27(p: Pool, now: int): bool =
    p.pos.keys().forall(r => {
      val q = p.pos.get(r).liq
      q == 0 or p.ticks.get(r._2).gross > SMAX or p.ticks.get(r._3).gross > SMAX or modify(p, r, -min2(q, SMAX), now).ok
    })

  // wherever there is liquidity a trade in either direction goes through, and so does a deposit into any range
  // that holds some already, while the liquidity of all positions together fits a signed counter
  pure def C29(p: Pool, fee: int, fp: int, now: int): bool = p.pos.keys().sum(r => p.pos.get(r).liq) >= SMAX or and {
    p.liq == 0 or fee > 100000 or Set(true, false).forall(zfo => {
      val l = if (zfo) max2(MIN_PRICE + 1, p.price - p.price / 200 - 1) else min2(MAX_PRICE - 1, p.price + p.price / 200 + 1)
      limitOk(p, zfo, l) implies Set(1, 1000000, -1).forall(x => swapPool(p, fee, fp, zfo, x, l, now).ok)
    }),
    p.pos.keys().forall(r => p.pos.get(r).liq == 0 or modify(p, r, 1, now).ok)
  }
  // everything that counts tokens or liquidity is within its type
  pure def C30(p: Pool): bool = and {
    fits(p.liq), fits(p.p0), fits(p.p1), fits(p.v0), fits(p.v1),
    p.ticks.keys().forall(t => validTick(p.ticks.get(t))),
    p.pos.keys().forall(r => { val x = p.pos.get(r)
      fits(x.liq) and fits(x.o0) and fits(x.o1) and x.o0 <= p.v0 and x.o1 <= p.v1 })
  }

  // the price moves in the direction of the trade and not beyond the limit; stops for a reason
  pure def swapDone(p: Pool, q: Pool, zfo: bool, amt: int, lim: int, inp: int, out: int): bool = and {
    if (zfo) q.price <= p.price and q.price >= lim else q.price >= p.price and q.price <= lim,
    inp >= 0, out >= 0,
    if (amt > 0) inp <= amt else out <= -amt,
    q.price == lim or (if (amt > 0) inp == amt else out == -amt),
    // ticks crossed: exactly those in use between the two prices
    p.ticks.keys().forall(t =>
      (p.ticks.get(t) != q.ticks.get(t)) implies (p.ticks.get(t).gross > 0 and
        (if (zfo) q.tick < t and t <= p.tick else p.tick < t and t <= q.tick)))
  }
  // trading the proceeds straight back does not gain anything
  pure def noGain(q: Pool, fee: int, fp: int, zfo: bool, inp: int, out: int, now: int): bool =
    if (out == 0) true
    else {
      val lim = if (zfo) MAX_PRICE - 1 else MIN_PRICE + 1
      val near = if (zfo) min2(lim, priceAt(min2(MAX_TICK, q.tick + q.sp * WORD * 4)))
                 else max2(lim, priceAt(max2(MIN_TICK, q.tick - q.sp * WORD * 4)))
      if (not(limitOk(q, not(zfo), near))) true
      else {
        val e = swapPool(q, fee, fp, not(zfo), out, near, now)
        e.ok implies e.out <= inp
      }
    }

  pure def names(evs: List[Ev]): List[str] = evs.foldl([], (l, e) => l.append(e.n))
  pure def expectedEvents(op: Op): List[str] = match op {
    | OInitFactory(o) => ["OwnerChanged"]
    | OSetOwner(o) => ["OwnerChanged"]
    | OEnableFee(o) => ["FeeAmountEnabled"]
    | OSetFeeProt(o) => ["SetFeeProtocolEvent"]
    | OColProt(o) => ["CollectProtocolEvent"]
    | OCreatePool(o) => ["PoolCreatedAndInitialized"]
    | OIncObs(o) => ["IncreaseObservationCardinalityNext"]
    | OMint(o) => if (o.cb == "other") ["SwapEvent", "MintEvent"] else ["MintEvent"]
    | OBurn(o) => ["BurnEvent"]
    | OCollect(o) => ["CollectEvent"]
    | OSwap(o) => if (o.cb == "other") ["SwapEvent", "SwapEvent"] else ["SwapEvent"]
    | ONMint(o) => ["MintEvent", "IncreaseLiquidityEvent"]
    | ONInc(o) => ["MintEvent", "IncreaseLiquidityEvent"]
    | ONDec(o) => ["BurnEvent", "DecreaseLiquidityEvent"]
    | ONCol(o) => ["CollectEvent", "CollectTokenizedEvent"]
    | OExSingle(o) => ["SwapEvent"]
    | OExIn(o) => o.hops.foldl([], (l, h) => l.append("SwapEvent"))
    | ESnap(o) => ["Snapshot"]
    | _ => []
  }

  // who may lose tokens, liquidity or claims by the operation
  pure def signer(op: Op): str = match op {
    | OInitFactory(o) => o.s
    | OSetOwner(o) => o.s
    | OEnableFee(o) => o.s
    | OSetFeeProt(o) => o.s
    | OColProt(o) => o.s
    | OCreatePool(o) => o.s
    | OIncObs(o) => o.s
    | OInitTick(o) => o.s
    | OInitWord(o) => o.s
    | OInitPos(o) => o.s
    | OMint(o) => o.s
    | OBurn(o) => o.s
    | OCollect(o) => o.s
    | OSwap(o) => o.s
    | ONMint(o) => o.s
    | ONMeta(o) => o.s
    | ONInc(o) => o.s
    | ONDec(o) => o.s
    | ONCol(o) => o.s
    | OExSingle(o) => o.s
    | OExIn(o) => o.s
    | OPayMint(o) => o.s
    | OPaySwap(o) => o.s
    | EXfer(o) => o.s
    | EAppr(o) => o.s
    | ERev(o) => o.s
    | EDonate(o) => o.s
    | EFund(o) => o.s
    | _ => ""
  }

  // lamports held by the accounts there are
  pure def locked(w: World): int =
    (if (w.fac.ini) rent("factory") else 0) + w.tiers.keys().size() * rent("tier")
      + w.pools.keys().sum(k => { val p = w.pools.get(k)
          rent("pool") + p.obs.keys().size() * rent("obs") + p.ticks.keys().size() * rent("tick")
            + p.words.size() * rent("word") + p.pos.keys().size() * rent("pos") })
      + w.nfts.keys().sum(n => rent("mint") + rent("nft") + w.nfts.get(n).acc.keys().size() * rent("acc"))
      + w.gift.keys().sum(g => w.gift.get(g))
  // who gets the lamports of an account closed by the operation
  pure def heir(op: Op): str = match op { | OCloseTick(o) => o.r | _ => "" }

  // the events' numbers are those of the change
  pure def told(old: World, w: World, tx: Tx, evs: List[Ev]): bool = match tx.op {
    | OSwap(o) => {
        val p = old.pools.get(o.p)
        val q = w.pools.get(o.p)
        // (a generous payer leaves more than announced)
        val d0 = q.v0 - p.v0
        val d1 = q.v1 - p.v1
        val over = if (o.cb == "over") 1 else 0
        evs[evs.length() - 1].v == [if (o.zfo) d0 - over else d0, if (o.zfo) d1 else d1 - over, q.price, q.liq, q.tick]
      }
    | OMint(o) => {
        val over = if (o.cb == "over") 1 else 0
        evs[evs.length() - 1].v == [o.lo, o.hi, o.amt, w.pools.get(o.p).v0 - old.pools.get(o.p).v0 - over,
                     w.pools.get(o.p).v1 - old.pools.get(o.p).v1 - over]
      }
    | OCollect(o) => evs[0].v == [o.lo, o.hi, old.pools.get(o.p).v0 - w.pools.get(o.p).v0, old.pools.get(o.p).v1 - w.pools.get(o.p).v1]
    | OColProt(o) => evs[0].v == [old.pools.get(o.p).v0 - w.pools.get(o.p).v0, old.pools.get(o.p).v1 - w.pools.get(o.p).v1]
    | OBurn(o) => {
        val x = worth(old.pools.get(o.p), o.lo, o.hi, o.amt, false)
        evs[0].v == [o.lo, o.hi, o.amt, x._1, x._2]
      }
    | ONDec(o) => {
        val x = worth(old.pools.get(o.p), o.lo, o.hi, o.liq, false)
        evs[1].v == [o.liq, x._1, x._2] and evs[1].k == [NMint(o.n)]
      }
    | ONInc(o) => evs[1].v == [w.nfts.get(o.n).liq - old.nfts.get(o.n).liq, w.pools.get(o.p).v0 - old.pools.get(o.p).v0,
                               w.pools.get(o.p).v1 - old.pools.get(o.p).v1]
    | ONMint(o) => evs[1].v == [w.nfts.get(o.n).liq, w.pools.get(o.p).v0 - old.pools.get(o.p).v0,
                                w.pools.get(o.p).v1 - old.pools.get(o.p).v1]
    | OSetFeeProt(o) => evs[0].v == [old.fac.fp, w.fac.fp]
    | OIncObs(o) => evs[0].v == [old.pools.get(o.p).cn, w.pools.get(o.p).cn]
    | _ => true
  }

  pure def nop(b: bool, id: str): Set[str] = if (b) Set() else Set(id)

  // properties violated by one transition
  pure def violated(g: Ghost, old: World, tx: Tx, r: Res): Set[str] = {
    val w = r.w
    if (not(r.ok)) nop(w == old and r.ev == [], "C26").union(nop(r.ev == [], "C23"))
    else {
      val s = signer(tx.op)
      val poolsTouched = w.pools.keys().filter(k => not(old.pools.keys().contains(k)) or old.pools.get(k) != w.pools.get(k))
      val kept = poolsTouched.intersect(old.pools.keys())
      val pos = kept.fold(Set(), (q, k) => q.union(w.pools.get(k).pos.keys()
        .filter(x => not(hasPos(old.pools.get(k), x)) or old.pools.get(k).pos.get(x) != w.pools.get(k).pos.get(x)).map(x => (k, x))))
      val st = poolsTouched.fold(Set(), (q, k) => {
        val p = w.pools.get(k)
        q.union(nop(C01(p), "C01")).union(nop(C02(p), "C02")).union(nop(C03(p), "C03")).union(nop(C04(p), "C04"))
         .union(nop(C15(p), "C15")).union(nop(p.unl, "C19")).union(nop(C27(p, w.now), "C27"))
         .union(nop(C29(p, k._3, w.fac.fp, w.now), "C29")).union(nop(C30(p), "C30"))
      })
      // ghosts
      val gh = poolsTouched.fold(Set(), (q, k) => {
        val p = w.pools.get(k)
        q.union(nop(p.pos.keys().forall(x => { val u = uncredited(p, x)
              val y = p.pos.get(x)
              entitled(g.due.getOr((k, x), NO_DUE), y.o0 + u._1, y.o1 + u._2) }), "C06"))
         .union({ val y = g.prot.getOr(k, { d0: 0, d1: 0, x0: 0, x1: 0 })
              nop(p.p0 == y.d0 - y.x0 and p.p1 == y.d1 - y.x1, "C18") })
      })
      val times = w.pools.keys().fold(Set(), (q, k) => {
        val p = w.pools.get(k)
        val o = latest(p, w.now)
        val x = g.sum.get(k)
        q.union(nop(o.tc == x.tc and abs(o.sp * Q - x.sp) <= x.n * Q, "C14"))
      }).union(g.rng.keys().fold(Set(), (q, x) => {
        val y = g.rng.get(x)
        val v = snapshotInside(w.pools.get(x._1), x._2, x._3, w.now)
        val dsp = wrap(v.sp - y.start.sp + y.n + 2) - y.n - 2
        q.union(nop(clock(v.so - y.start.so - y.so) == 0 and v.tc - y.start.tc == y.tc and abs(dsp * Q - y.sp) <= (y.n + 2) * Q, "C25"))
      }))
      val nfts = w.nfts.keys().fold(Set(), (q, n) => {
        val t = w.nfts.get(n)
        val ps = w.pools.get(t.pool).pos.get((FAC, t.lo, t.hi))
        val i = if (t.liq > 0) inside(w.pools.get(t.pool), t.lo, t.hi) else (t.f0, t.f1)
        q.union(nop(t.sup == 1 and t.acc.keys().sum(u => t.acc.get(u).amt) == 1, "C11"))
         .union(nop(not(hasNft(old, n)) or (old.nfts.get(n).pool == t.pool and old.nfts.get(n).lo == t.lo and old.nfts.get(n).hi == t.hi), "C11"))
         .union(nop(entitled(g.ndue.getOr(n, NO_DUE), t.o0 + accrued(i._1, t.f0, t.liq), t.o1 + accrued(i._2, t.f1, t.liq)), "C10"))
         .union(nop(w.nfts.keys().filter(m => { val u = w.nfts.get(m) u.pool == t.pool and u.lo == t.lo and u.hi == t.hi })
                .sum(m => w.nfts.get(m).liq) <= ps.liq, "C10"))
         .union(nop(n == nftOf(tx.op) or not(hasNft(old, n)) or { val u = old.nfts.get(n) { ...u, acc: t.acc } == t }, "C10"))
      })
      val wallets = nop(TOKENS.forall(t => supply(w, t) == g.tot.get(t)), "C26")
        .union(nop(w.wal.keys().forall(x => x._1 == s or bal(w, x._1, x._2) >= bal(old, x._1, x._2)), "C26"))
        .union(nop(w.sol.keys().sum(u => w.sol.get(u)) == locked(w) and w.sol.keys().forall(u => {
            val a = old.sol.getOr(u, 0)
            val b = w.sol.get(u)
            (b <= a or u == s) and (b >= a or u == heir(tx.op)) }), "C28"))
        .union(nop(w.wal.keys().forall(x => fits(bal(w, x._1, x._2))) and w.nfts.keys().forall(n => { val t = w.nfts.get(n)
            fits(t.liq) and fits(t.o0) and fits(t.o1) }), "C30"))
        .union(nop(pos.forall(x => {
            val a = old.pools.get(x._1).pos.getOr(x._2, NO_POS)
            val b = w.pools.get(x._1).pos.get(x._2)
            val own = x._2._1 == s or (x._2._1 == FAC and nftOf(tx.op) >= 0)
            own or (b.liq >= a.liq and b.o0 >= a.o0 and b.o1 >= a.o1) }), "C08"))
        .union(nop(tx.sub == NO_SUB, "C20"))
        .union(nop(names(r.ev).select(n => n != "BurnEvent" or taken(tx.op)._1 != NO_KEY) == expectedEvents(tx.op)
                   and told(old, w, tx, r.ev), "C23"))
        .union(nop(old.tiers.keys().forall(f => w.tiers.keys().contains(f) and w.tiers.get(f) == old.tiers.get(f)), "C16"))
        .union(nop(old.fac == w.fac or not(old.fac.ini) or old.fac.owner == s, "C16"))
        .union(nop(old.tiers == w.tiers or old.fac.owner == s, "C16"))
        .union(nop(not(w.fac.ini) or (w.fac.fp >= 2 and w.fac.fp <= 10), "C16"))
        .union(nop(w.tiers.keys().forall(f => f < FEE_BASE and w.tiers.get(f) > 0 and w.tiers.get(f) < MAX_SPACING), "C16"))
        .union(nop(kept.forall(k => w.pools.get(k).sp == old.pools.get(k).sp), "C17"))
        .union(nop(old.pools.keys().subseteq(w.pools.keys()), "C17"))
        .union(nop(w.pools.keys().forall(k => k._1 < k._2 and w.tiers.keys().contains(k._3) and w.pools.get(k).sp == w.tiers.get(k._3)), "C17"))
        .union(nop(kept.forall(k => {
            val a = old.pools.get(k)
            val b = w.pools.get(k)
            and {
              a.ticks.keys().exclude(b.ticks.keys()).forall(t => a.ticks.get(t) == NO_TICK),
              b.ticks.keys().exclude(a.ticks.keys()).forall(t => t >= MIN_TICK and t <= MAX_TICK and fdiv(t, a.sp) * a.sp == t),
              b.words.exclude(a.words).forall(x => x * WORD * a.sp <= MAX_TICK and (x * WORD + WORD - 1) * a.sp >= MIN_TICK),
              b.pos.keys().exclude(a.pos.keys()).forall(x => x._2 < x._3) } }), "C22"))
      // the operation itself
      val opb = match tx.op {
        | OSwap(o) => swapProps(old, w, o.p, o.zfo, o.amt, o.lim, if (o.cb == "over") 1 else 0)
        | OExSingle(o) => {
            val tOut = if (o.zfo) o.p._2 else o.p._1
            swapProps(old, w, o.p, o.zfo, o.amt, if (o.lim != 0) o.lim else if (o.zfo) MIN_PRICE + 1 else MAX_PRICE - 1, 0)
              .union(nop(old.now <= o.dl and bal(w, s, tOut) - bal(old, s, tOut) >= o.min, "C12"))
          }
        | OExIn(o) => {
            val k0 = o.hops[0]
            val kn = o.hops[o.hops.length() - 1]
            val tIn = if (k0._2) k0._1._1 else k0._1._2
            val tOut = if (kn._2) kn._1._2 else kn._1._1
            val mids = TOKENS.exclude(Set(tIn, tOut))
            val got = bal(w, s, tOut) - bal(old, s, tOut)
            // a partial fill of a later hop leaves the rest with the trader
            val full = o.hops.foldl(true, (b, h) => b)
            nop(old.now <= o.dl, "C12")
              .union(nop(tIn == tOut or got >= o.min, "C12"))
              .union(nop(tIn == tOut or bal(old, s, tIn) - bal(w, s, tIn) <= o.amt, "C13"))
              .union(nop(tIn == tOut or mids.forall(t => bal(w, s, t) >= bal(old, s, t)), "C13"))
          }
        | OMint(o) => {
            val a = old.pools.get(o.p)
            val b = w.pools.get(o.p)
            val x = worth(a, o.lo, o.hi, o.amt, true)
            nop(b.pos.get((o.o, o.lo, o.hi)).liq == a.pos.get((o.o, o.lo, o.hi)).liq + o.amt
                and b.v0 - a.v0 >= x._1 and b.v1 - a.v1 >= x._2
                and b.pos.keys().forall(y => y == (o.o, o.lo, o.hi) or b.pos.get(y) == a.pos.get(y)), "C07")
              .union(nop(not(reentrant(o.cb)), "C19"))
          }
        | OBurn(o) => {
            val a = old.pools.get(o.p).pos.get((o.o, o.lo, o.hi))
            val b = w.pools.get(o.p).pos.get((o.o, o.lo, o.hi))
            nop(o.s == o.o and b.liq == a.liq - o.amt and old.pools.get(o.p).v0 == w.pools.get(o.p).v0
                and old.pools.get(o.p).v1 == w.pools.get(o.p).v1, "C08")
          }
        | OCollect(o) => {
            val a = old.pools.get(o.p).pos.get((o.o, o.lo, o.hi))
            val b = w.pools.get(o.p).pos.get((o.o, o.lo, o.hi))
            val x0 = old.pools.get(o.p).v0 - w.pools.get(o.p).v0
            val x1 = old.pools.get(o.p).v1 - w.pools.get(o.p).v1
            nop(o.s == o.o and x0 == min2(o.a0, a.o0) and x1 == min2(o.a1, a.o1) and b.o0 == a.o0 - x0 and b.o1 == a.o1 - x1, "C08")
          }
        | OColProt(o) => {
            val a = old.pools.get(o.p)
            val b = w.pools.get(o.p)
            nop(old.fac.owner == o.s, "C16")
              .union(nop(a.v0 - b.v0 == min2(o.a0, a.p0) and a.v1 - b.v1 == min2(o.a1, a.p1) and a.pos == b.pos, "C18"))
          }
        | ONMint(o) => {
            val a = old.pools.get(o.p)
            val b = w.pools.get(o.p)
            val t = w.nfts.get(o.n)
            nop(not(hasNft(old, o.n)) and t.acc == Map(o.r -> { amt: 1, del: "", damt: 0 })
                and t.liq == b.pos.get((FAC, o.lo, o.hi)).liq - a.pos.getOr((FAC, o.lo, o.hi), NO_POS).liq, "C11")
              .union(nop(old.now <= o.dl and b.v0 - a.v0 >= o.m0 and b.v1 - a.v1 >= o.m1, "C12"))
              .union(nop(b.v0 - a.v0 <= o.d0 and b.v1 - a.v1 <= o.d1, "C24"))
          }
        | ONInc(o) => {
            val a = old.pools.get(o.p)
            val b = w.pools.get(o.p)
            nop(old.now <= o.dl and b.v0 - a.v0 >= o.m0 and b.v1 - a.v1 >= o.m1, "C12")
              .union(nop(b.v0 - a.v0 <= o.d0 and b.v1 - a.v1 <= o.d1, "C24"))
              .union(nop(w.nfts.get(o.n).liq - old.nfts.get(o.n).liq
                         == b.pos.get((FAC, o.lo, o.hi)).liq - a.pos.get((FAC, o.lo, o.hi)).liq, "C10"))
          }
        | ONDec(o) => {
            val a = old.pools.get(o.p)
            val x = worth(a, o.lo, o.hi, o.liq, false)
            nop(mayAct(old, o.n, s), "C09")
              .union(nop(old.now <= o.dl and x._1 >= o.m0 and x._2 >= o.m1, "C12"))
              .union(nop(w.nfts.get(o.n).liq == old.nfts.get(o.n).liq - o.liq and old.nfts.get(o.n).liq >= o.liq, "C10"))
          }
        | ONCol(o) => nop(mayAct(old, o.n, s), "C09")
        | _ => Set()
      }
      st.union(gh).union(times).union(nfts).union(wallets).union(opb)
    }
  }
  // holder of the NFT, or approved by the holder
  pure def mayAct(w: World, n: int, s: str): bool =
    w.nfts.get(n).acc.keys().exists(u => { val a = w.nfts.get(n).acc.get(u) a.amt == 1 and (u == s or (a.del == s and a.damt > 0)) })
  pure def swapProps(old: World, w: World, k: Key, zfo: bool, amt: int, lim: int, over: int): Set[str] = {
    val p = old.pools.get(k)
    val q = w.pools.get(k)
    val inp = (if (zfo) q.v0 - p.v0 else q.v1 - p.v1) - over
    val out = if (zfo) p.v1 - q.v1 else p.v0 - q.v0
    nop(swapDone(p, q, zfo, amt, lim, inp, out), "C04")
      .union(nop(if (amt > 0) inp <= amt else out <= -amt, "C05"))
      .union(nop(noGain(q, k._3, old.fac.fp, zfo, inp, out, old.now), "C05"))
  }
}
