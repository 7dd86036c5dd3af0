// One concentrated-liquidity pool: positions, ticks, bitmap, swaps, oracle.
// Amounts are stated as exact rationals rounded once; counters are modulo WRAP, oracle times modulo TIME.
module clmm {
  import numerics.* from "./numerics"

  // ---------------------------------------------------------------- state of a pool
  // An initialised-or-empty tick account. f0, f1: fee growth on the other side; tc, sp, so: tick-seconds,
  // seconds per liquidity and seconds on the other side.
  type Tick = { net: int, gross: int, f0: int, f1: int, tc: int, sp: int, so: int }
  // A position account: liquidity, last fee growth inside (both tokens), tokens owed
  type Pos = { liq: int, f0: int, f1: int, o0: int, o1: int }
  // An oracle slot
  type Obs = { ts: int, tc: int, sp: int, ini: bool }
  type Range = (str, int, int)      // owner, lower tick, upper tick
  type Pool = {
    sp: int, price: int, tick: int, liq: int,
    oi: int, card: int, cn: int,                  // oracle writer index, ring size, allocated slots
    g0: int, g1: int, p0: int, p1: int,           // global fee growth, protocol fees
    v0: int, v1: int,                             // vault balances
    unl: bool,
    ticks: int -> Tick, words: Set[int], bits: Set[int], pos: Range -> Pos, obs: int -> Obs
  }

  pure val NO_TICK: Tick = { net: 0, gross: 0, f0: 0, f1: 0, tc: 0, sp: 0, so: 0 }
  pure val NO_POS: Pos = { liq: 0, f0: 0, f1: 0, o0: 0, o1: 0 }
  pure val EMPTY_SLOT: Obs = { ts: 1, tc: 0, sp: 0, ini: false }

  // ---------------------------------------------------------------- arithmetic
  // division rounding to minus infinity / towards zero / up (for non-negative numerators), d > 0
  pure def fdiv(n: int, d: int): int = if (n >= 0) n / d else -((-n + d - 1) / d)
  pure def tdiv(n: int, d: int): int = if (n >= 0) n / d else -(-n / d)
  pure def cdiv(n: int, d: int): int = (n + d - 1) / d
  pure def wrap(x: int): int = x - WRAP * fdiv(x, WRAP)
  pure def clock(x: int): int = x - TIME * fdiv(x, TIME)
  pure def min2(a: int, b: int): int = if (a < b) a else b
  pure def max2(a: int, b: int): int = if (a > b) a else b
  pure def abs(a: int): int = if (a < 0) -a else a
  pure def fits(x: int): bool = x >= 0 and x < WRAP
  pure def without(m: a -> b, k: a): a -> b = m.keys().exclude(Set(k)).mapBy(x => m.get(x))
  pure def toggle(s: Set[int], x: int): Set[int] = if (s.contains(x)) s.exclude(Set(x)) else s.union(Set(x))
  pure def sum(s: Set[a], f: (a) => int): int = s.fold(0, (n, x) => n + f(x))

  // token amounts that separate two prices at liquidity l
  pure def amount0(a: int, b: int, l: int, up: bool): int = {
    val lo = min2(a, b)
    val hi = max2(a, b)
    if (up) cdiv(l * Q * (hi - lo), hi * lo) else (l * Q * (hi - lo)) / (hi * lo)
  }
  pure def amount1(a: int, b: int, l: int, up: bool): int =
    if (up) cdiv(l * abs(a - b), Q) else (l * abs(a - b)) / Q

  // the most liquidity that the desired amounts buy at price p in the range [a, b]
  pure def liquidityFor0(a: int, b: int, d0: int): int = (d0 * ((a * b) / Q)) / (b - a)
  pure def liquidityFor1(a: int, b: int, d1: int): int = (d1 * Q) / (b - a)
  // result and whether every intermediate fits in a counter
  pure def liquidityFor(p: int, a: int, b: int, d0: int, d1: int): (int, bool) =
    if (p <= a) {
      val l = liquidityFor0(a, b, d0)
      (l, fits(l))
    } else if (p < b) {
      val l0 = liquidityFor0(p, b, d0)
      val l1 = liquidityFor1(a, p, d1)
      (min2(l0, l1), fits(l0) and fits(l1))
    } else {
      val l = liquidityFor1(a, b, d1)
      (l, fits(l))
    }

  // ---------------------------------------------------------------- one swap segment
  type Step = { ok: bool, price: int, in: int, out: int, fee: int }

  // price after paying x of the input token / after taking x of the output token; -1 if not representable
  pure def priceAfterIn(p: int, l: int, x: int, zfo: bool): int =
    if (zfo) {
      if (x == 0) p
      else if (x * p < WRAP) cdiv(l * Q * p, l * Q + x * p)
      else cdiv(l * Q, (l * Q) / p + x)
    } else {
      val n = p + (x * Q) / l
      if ((x * Q) / l < WRAP and n < WRAP) n else -1
    }
  pure def priceAfterOut(p: int, l: int, x: int, zfo: bool): int =
    if (zfo) {
      val q = cdiv(x * Q, l)
      if (p > q) p - q else -1
    } else if (x == 0) p
    else if (x * p >= WRAP or l * Q <= x * p) -1
    else {
      val n = cdiv(l * Q * p, l * Q - x * p)
      if (n < WRAP) n else -1
    }

  // Trade towards `target` with `rem` > 0 still to be paid in (exact input) or < 0 to be taken out.
  // `fee` is in FEE_BASE units of the input.
  pure def swapStep(cur: int, target: int, l: int, rem: int, fee: int): Step = {
    val zfo = cur >= target
    val exactIn = rem >= 0
    pure def inTo(p: int): int = if (zfo) amount0(p, cur, l, true) else amount1(cur, p, l, true)
    pure def outTo(p: int): int = if (zfo) amount1(p, cur, l, false) else amount0(cur, p, l, false)
    val avail = if (exactIn) (rem * (FEE_BASE - fee)) / FEE_BASE else -rem
    val full = if (exactIn) inTo(target) else outTo(target)
    val pn = if (avail >= full) target
               else if (exactIn) priceAfterIn(cur, l, avail, zfo)
               else priceAfterOut(cur, l, avail, zfo)
    if (not(fits(full)) or pn < 0) { ok: false, price: cur, in: 0, out: 0, fee: 0 }
    else {
      val i = inTo(pn)
      val o0 = outTo(pn)
      val o = if (not(exactIn) and o0 > avail) avail else o0
      val f = if (exactIn and pn != target) rem - i else cdiv(i * fee, FEE_BASE - fee)
      { ok: fits(i) and fits(o0) and fits(f), price: pn, in: i, out: o, fee: f }
    }
  }

  // ---------------------------------------------------------------- oracle
  // accumulate an observation up to `now` at constant tick and liquidity
  pure def extend(o: Obs, now: int, tick: int, liq: int): Obs = {
    val dt = clock(now - o.ts)
    { ts: clock(now), tc: o.tc + tick * dt, sp: wrap(o.sp + (dt * Q) / max2(liq, 1)), ini: true }
  }
  pure def latest(p: Pool, now: int): Obs = extend(p.obs.get(p.oi), now, p.tick, p.liq)

  // a later partition is recorded in the next slot (the first record after the clock wraps is not later)
  pure def opensSlot(p: Pool, now: int): bool = clock(now) / PARTITION > p.obs.get(p.oi).ts / PARTITION
  pure def nextSlot(p: Pool): int = (p.oi + 1) % p.cn

  // record the tick and liquidity that were in force until now
  pure def record(p: Pool, now: int): Pool =
    if (p.obs.get(p.oi).ts == clock(now)) p
    else if (not(opensSlot(p, now))) { ...p, obs: p.obs.put(p.oi, latest(p, now)) }
    else {
      val i = nextSlot(p)
      { ...p, oi: i, obs: p.obs.put(i, latest(p, now)),
        card: if (p.cn > p.card and p.oi == p.card - 1) p.cn else p.card }
    }

  // ---------------------------------------------------------------- fee growth inside a range
  pure def feeInside(lo: Tick, hi: Tick, lower: int, upper: int, cur: int, g0: int, g1: int): (int, int) = {
    pure def inside(g: int, l: int, h: int): int = {
      val below = if (cur >= lower) l else g - l
      val above = if (cur < upper) h else g - h
      wrap(g - below - above)
    }
    (inside(g0, lo.f0, hi.f0), inside(g1, lo.f1, hi.f1))
  }

  // in-range accumulators of [lower, upper) at time now
  type Snap = { tc: int, sp: int, so: int }
  pure def snapshotInside(p: Pool, lower: int, upper: int, now: int): Snap = {
    val lo = p.ticks.get(lower)
    val hi = p.ticks.get(upper)
    if (p.tick < lower) { tc: lo.tc - hi.tc, sp: wrap(lo.sp - hi.sp), so: clock(lo.so - hi.so) }
    else if (p.tick < upper) {
      val o = latest(p, now)
      { tc: o.tc - lo.tc - hi.tc, sp: wrap(o.sp - lo.sp - hi.sp), so: clock(now - lo.so - hi.so) }
    } else { tc: hi.tc - lo.tc, sp: wrap(hi.sp - lo.sp), so: clock(hi.so - lo.so) }
  }

  // ---------------------------------------------------------------- positions
  // uncredited fees of a position with liquidity l and last growth f when the growth inside is g
  pure def accrued(g: int, f: int, l: int): int = (wrap(g - f) * l) / Q

  // ok; the pool afterwards; the token amounts the liquidity change is worth
  type Modified = { ok: bool, pool: Pool, a0: int, a1: int }

  pure def compressed(t: int, spacing: int): int = fdiv(t, spacing)
  pure def wordOf(t: int, spacing: int): int = fdiv(compressed(t, spacing), WORD)

  pure def touch(t: Tick, idx: int, p: Pool, d: int, upper: bool, o: Obs): Tick = {
    val seeded = if (t.gross == 0 and idx <= p.tick)
        { ...t, f0: p.g0, f1: p.g1, tc: o.tc, sp: o.sp, so: o.ts } else t
    { ...seeded, gross: t.gross + d, net: if (upper) t.net - d else t.net + d }
  }
  pure def validTick(t: Tick): bool = fits(t.gross) and t.net >= -SMAX - 1 and t.net <= SMAX

  // change the liquidity of a position by d (d = 0 only credits its fees).
  // Requires the tick, bitmap and position accounts to exist.
  pure def modify(p: Pool, r: Range, d: int, now: int): Modified = {
    val lower = r._2
    val upper = r._3
    val o = latest(p, now)
    val lo0 = p.ticks.get(lower)
    val hi0 = p.ticks.get(upper)
    val lo = if (d == 0) lo0 else touch(lo0, lower, p, d, false, o)
    val hi = if (d == 0) hi0 else touch(hi0, upper, p, d, true, o)
    val flipLo = (lo.gross == 0) != (lo0.gross == 0)
    val flipHi = (hi.gross == 0) != (hi0.gross == 0)
    val bits1 = if (flipLo) toggle(p.bits, compressed(lower, p.sp)) else p.bits
    val bits2 = if (flipHi) toggle(bits1, compressed(upper, p.sp)) else bits1
    val inside = feeInside(lo, hi, lower, upper, p.tick, p.g0, p.g1)
    val old = p.pos.get(r)
    val c0 = accrued(inside._1, old.f0, old.liq)
    val c1 = accrued(inside._2, old.f1, old.liq)
    val newPos = { liq: old.liq + d, f0: inside._1, f1: inside._2, o0: wrap(old.o0 + c0), o1: wrap(old.o1 + c1) }
    val p1 = { ...p,
      ticks: p.ticks.put(lower, if (d < 0 and flipLo) NO_TICK else lo)
                    .put(upper, if (d < 0 and flipHi) NO_TICK else hi),
      bits: bits2,
      pos: p.pos.put(r, newPos) }
    val l = abs(d)
    val pa = priceAt(lower)
    val pb = priceAt(upper)
    val inRange = lower <= p.tick and p.tick < upper
    val a0 = if (p.tick < lower) amount0(pa, pb, l, d > 0) else if (inRange) amount0(p.price, pb, l, d > 0) else 0
    val a1 = if (p.tick < lower) 0 else if (inRange) amount1(pa, p.price, l, d > 0) else amount1(pa, pb, l, d > 0)
    val p2 = if (d != 0 and inRange) { ...record(p1, now), liq: p.liq + d } else p1
    val ok = and {
      lower < upper,
      validTick(lo), validTick(hi),
      d != 0 or old.liq > 0,
      fits(newPos.liq), fits(p2.liq),
      fits(c0), fits(c1), fits(a0), fits(a1)
    }
    { ok: ok, pool: p2, a0: a0, a1: a1 }
  }

  // ---------------------------------------------------------------- swap
  // One accounted segment of a swap: the tick range it ran in (any tick in force), liquidity, fee to
  // liquidity providers, protocol share, whether token 0 was paid in
  type Seg = { tick: int, liq: int, lp: int, proto: int, zfo: bool }
  type Loop = {
    ok: bool, rem: int, calc: int, price: int, tick: int, g: int, proto: int, liq: int,
    ticks: int -> Tick, path: List[(str, int)], word: int, loaded: bool, segs: List[Seg]
  }
  // the pool afterwards (vaults not yet moved), input and output amounts, accounts visited in order
  type Swapped = { ok: bool, pool: Pool, in: int, out: int, path: List[(str, int)], segs: List[Seg] }

  pure def limitOk(p: Pool, zfo: bool, lim: int): bool =
    if (zfo) lim < p.price and lim > MIN_PRICE else lim > p.price and lim < MAX_PRICE

  pure def swapRound(p: Pool, fee: int, fp: int, zfo: bool, lim: int, exactIn: bool, now: int, s: Loop): Loop = {
    val c = compressed(s.tick, p.sp) + (if (zfo) 0 else 1)
    val w = fdiv(c, WORD)
    val cached = s.loaded and s.word == w
    val found = if (zfo) p.bits.filter(b => b <= c and b >= w * WORD)
                else p.bits.filter(b => b >= c and b < (w + 1) * WORD)
    val ini = found != Set()
    val nc = if (zfo) found.fold(w * WORD, (m, b) => max2(m, b)) else found.fold(w * WORD + WORD - 1, (m, b) => min2(m, b))
    val tn = max2(MIN_TICK, min2(MAX_TICK, nc * p.sp))
    val pn = priceAt(tn)
    val target = if (zfo) max2(pn, lim) else min2(pn, lim)
    val st = swapStep(s.price, target, s.liq, s.rem, fee)
    val cut = if (fp > 0) st.fee / fp else 0
    val lp = st.fee - cut
    val growth = if (s.liq > 0) (lp * Q) / s.liq else 0
    val g = wrap(s.g + growth)
    val paid = st.in + st.fee
    val rem = if (exactIn) s.rem - paid else s.rem + st.out
    val calc = if (exactIn) s.calc - st.out else s.calc + paid
    val reached = st.price == pn
    val crossing = reached and ini
    val t0 = if (crossing) p.ticks.get(tn) else NO_TICK
    val o = latest(p, now)
    val t1 = { ...t0,
      f0: wrap((if (zfo) g else p.g0) - t0.f0), f1: wrap((if (zfo) p.g1 else g) - t0.f1),
      sp: wrap(o.sp - t0.sp), tc: o.tc - t0.tc, so: clock(now - t0.so) }
    val liq = s.liq + (if (crossing) (if (zfo) -t0.net else t0.net) else 0)
    { ok: st.ok and paid <= SMAX and st.out <= SMAX and calc <= SMAX and calc >= -SMAX - 1
          and fits(growth) and fits(liq),
      rem: rem, calc: calc, price: st.price,
      tick: if (reached) (if (zfo) tn - 1 else tn)
            else if (st.price != s.price)
              (if (zfo) tickAtIn(st.price, tn, s.tick) else tickAtIn(st.price, s.tick, tn))
            else s.tick,
      g: g, proto: wrap(s.proto + cut), liq: liq,
      ticks: if (crossing) s.ticks.put(tn, t1) else s.ticks,
      path: {
        val l1 = if (cached) s.path else s.path.append(("w", w))
        if (crossing) l1.append(("t", tn)) else l1
      },
      word: w, loaded: if (cached) true else p.words.contains(w),
      segs: s.segs.append({ tick: s.tick, liq: s.liq, lp: lp, proto: cut, zfo: zfo }) }
  }

  // Requires limitOk and amt != 0.
  pure def swapPool(p: Pool, fee: int, fp: int, zfo: bool, amt: int, lim: int, now: int): Swapped = {
    val start: Loop = { ok: true, rem: amt, calc: 0, price: p.price, tick: p.tick,
      g: if (zfo) p.g0 else p.g1, proto: 0, liq: p.liq, ticks: p.ticks, path: [], word: 0, loaded: false, segs: [] }
    pure def done(s: Loop): bool = not(s.ok) or s.rem == 0 or s.price == lim
    val e = range(0, SWAP_OUTER).foldl(start, (s, i) =>
      if (done(s)) s else range(0, SWAP_INNER).foldl(s, (t, j) =>
        if (done(t)) t else swapRound(p, fee, fp, zfo, lim, amt > 0, now, t)))
    val moved = e.tick != p.tick
    val recorded = if (moved) record(p, now) else p
    val q = { ...recorded,
      price: e.price, tick: e.tick, liq: e.liq, ticks: e.ticks,
      g0: if (zfo) e.g else p.g0, g1: if (zfo) p.g1 else e.g,
      p0: if (zfo) wrap(p.p0 + e.proto) else p.p0, p1: if (zfo) p.p1 else wrap(p.p1 + e.proto) }
    { ok: e.ok and done(e), pool: q,
      in: if (amt > 0) amt - e.rem else e.calc,
      out: if (amt > 0) -e.calc else -(amt - e.rem),
      path: if (moved and opensSlot(p, now)) e.path.append(("o", nextSlot(p))) else e.path,
      segs: e.segs }
  }
}
