// Random and directed exploration of the system: which transactions are tried in which state.
// Every choice is drawn from one large random number, so that a choice may depend on the state.
module gen {
  import numerics.* from "./numerics"
  import clmm.* from "./clmm"
  import system.* from "./system"

  // ---------------------------------------------------------------- choosing
  pure val B = 65536
  // the i-th die of a roll, 0 .. n-1
  pure def die(r: int, i: int, n: int): int = ((r / B^i) % B) % n
  // 1 .. 2^(bits+1), roughly logarithmic
  pure def logAmount(r: int, i: int, bits: int): int = {
    val b = die(r, i, bits + 1)
    2^b + ((r / B^(i + 1)) % B * 2^48 / B) % 2^b
  }
  // amounts at the edges of the machine's words, and what turns into -x when a sign is misread
  pure def edge(x: int, r: int, i: int): int = [SMAX, SMAX + 1, WRAP - 1, WRAP - max2(x, 1)][die(r, i, 4)]
  pure def mix(x: int, d: int): int = ((x + 20000003) * 7368787 + d * 104729) % 1000003
  // an element of a set, by a hash of its number
  pure def chooseBy(s: Set[a], d: int, num: (a) => int, default: a): a =
    s.fold((default, -1), (m, x) => { val h = mix(num(x), d) if (h > m._2) (x, h) else m })._1
  pure def chooseInt(s: Set[int], d: int, default: int): int = chooseBy(s, d, x => x, default)
  pure def keyNum(k: Key): int = k._1 * 131 + k._2 * 1291 + k._3 * 31

  pure val USERS = ["u1", "u2", "u3", "adm", "atk", "new"]
  pure def user(r: int, i: int): str = USERS[die(r, i, 3)]
  pure def anyUser(r: int, i: int): str = USERS[die(r, i, 6)]
  pure def userNum(u: str): int = range(0, 6).foldl(7, (n, i) => if (USERS[i] == u) i else n)
  pure def rangeNum(x: Range): int = userNum(x._1) * 7 + x._2 * 31 + x._3 * 1009

  // fee tiers in use: (fee, spacing)
  pure val TIERS: List[(int, int)] = [(500, 10), (3000, 60), (10000, 200), (100, 1), (7919, 7), (999999, 16383), (0, 64)]
  pure def poolKey(w: World, r: int, i: int): Key =
    if (die(r, i, 60) == 59) (0, 2, 77) else chooseBy(w.pools.keys(), r / B^i, keyNum, NO_KEY)

  pure def T(op: Op): Tx = { op: op, sub: NO_SUB }

  // ---------------------------------------------------------------- ticks and prices
  pure def clampTick(t: int, sp: int): int = max2(tdiv(MIN_TICK, sp) * sp, min2(tdiv(MAX_TICK, sp) * sp, t))
  pure def someTick(p: Pool, r: int, i: int): int = {
    val m = die(r, i, 20)
    val b = die(r, i + 1, 60000)
    val c = fdiv(p.tick, p.sp)
    val t = if (m < 7 and p.ticks.keys().size() > 0) chooseInt(p.ticks.keys(), b, 0)
      else if (m < 13) (c + b % 9 - 4) * p.sp
      else if (m < 15) (c + b % 601 - 300) * p.sp
      else if (m < 17) ((fdiv(c, WORD) + b % 3 - 1) * WORD - (b / 3) % 2) * p.sp
      else if (m == 17) MIN_TICK
      else if (m == 18) MAX_TICK
      else (c + b % 20001 - 10000) * p.sp
    clampTick(t, p.sp)
  }
  pure def someRange(p: Pool, r: int, i: int): (int, int) = {
    val a = someTick(p, r, i)
    val b = someTick(p, r, i + 2)
    if (a == b) (if (a + p.sp <= MAX_TICK) (a, a + p.sp) else (a - p.sp, a))
    else if (die(r, i + 4, 40) == 39) (max2(a, b), min2(a, b))
    else (min2(a, b), max2(a, b))
  }
  // an existing position with a preference for positions of `who`
  pure def somePos(p: Pool, r: int, i: int, ok: (Range) => bool): Range =
    chooseBy(p.pos.keys().filter(ok), r / B^i, rangeNum, ("", 0, 0))

  pure def wide(p: Pool): bool = p.sp >= 60
  // pools of the tiers at the limits of what may be enabled
  pure def extreme(p: Pool): bool = p.sp == 16383 or p.sp == 64
  // how far a swap may go
  pure def farPrice(p: Pool, zfo: bool, n: int): int =
    if (zfo) max2(MIN_PRICE + 1, priceAt(max2(MIN_TICK, p.tick - p.sp * WORD * n)))
    else min2(MAX_PRICE - 1, priceAt(min2(MAX_TICK, p.tick + p.sp * WORD * n)))
  pure def someLimit(p: Pool, zfo: bool, r: int, i: int): int = {
    val m = die(r, i, 24)
    val b = die(r, i + 1, 60000)
    if (m < 8 and extreme(p) and b % 2 == 0) (if (zfo) MIN_PRICE + 1 else MAX_PRICE - 1)
    else if (m < 8) farPrice(p, zfo, 1 + b % 3)
    else if (m < 11) priceAt(someTick(p, r, i + 2)) + b % 3 - 1
    else if (m < 14) {
      // the next initialised tick in the direction of the trade
      val s = if (zfo) p.ticks.keys().filter(t => t <= p.tick) else p.ticks.keys().filter(t => t > p.tick)
      if (s == Set()) farPrice(p, zfo, 1)
      else priceAt(if (zfo) s.fold(MIN_TICK, (m, t) => max2(m, t)) else s.fold(MAX_TICK, (m, t) => min2(m, t))) + b % 3 - 1
    }
    else if (m < 18) p.price + (if (zfo) -1 else 1) * (1 + b * (1 + die(r, i + 2, 30) * 4000))
    else if (m == 18) p.price + b % 3 - 1
    else if (m == 19) (if (zfo) MIN_PRICE + b % 3 - 1 else MAX_PRICE - b % 3 + 1)
    else farPrice(p, zfo, 1 + b % 8)
  }
  pure def capLimit(p: Pool, zfo: bool, l: int): int =
    if (wide(p)) l
    else if (l <= MIN_PRICE or l >= MAX_PRICE) l
    else if (zfo) max2(l, farPrice(p, true, 8)) else min2(l, farPrice(p, false, 8))

  // amount of a swap; exact amounts of a previous limit computation included
  pure def someSwap(w: World, k: Key, r: int, big: int): (bool, int, int) = {
    val p = w.pools.get(k)
    val zfo = die(r, 0, 2) == 0
    val lim = capLimit(p, zfo, someLimit(p, zfo, r, 1))
    val m = die(r, 5, 20)
    val a = logAmount(r, 6, big)
    // nobody provides liquidity at this price: usually back to where somebody does
    val x = somePos(p, r, 9, x => p.pos.get(x).liq > 0)
    if (p.liq == 0 and x._1 != "" and die(r, 11, 6) > 0)
      (p.tick >= x._3, if (die(r, 8, 2) == 0) 2^50 else a * 2^8, priceAt(x._2) + (priceAt(x._3) - priceAt(x._2)) * (1 + die(r, 10, 8)) / 9)
    // within the current segment
    else if (p.liq > 0 and die(r, 11, 4) == 0)
      (zfo, (if (die(r, 8, 3) == 0) -1 else 1) * (1 + p.liq / 2^(3 + die(r, 10, 9))), farPrice(p, zfo, 1))
    // half a turn of the fee growth counter
    else if (p.sp == 16383 and die(r, 10, 3) == 0)
      (zfo, max2(p.liq, 1) * 2^31 + die(r, 9, 60000) * p.liq * 2^15, if (zfo) MIN_PRICE + 1 else MAX_PRICE - 1)
    else if (m < 9) (zfo, a, lim)
    else if (m < 14) (zfo, -a, lim)
    else if (m < 19) {
      // exactly enough to get to the limit, or one unit less or more
      val l = if (limitOk(p, zfo, lim)) lim else farPrice(p, zfo, 1)
      val sign = if (die(r, 8, 2) == 0) 1 else -1
      val e = swapPool(p, k._3, w.fac.fp, zfo, sign * 2^60, l, w.now)
      val exact = if (sign > 0) e.in else -e.out
      (zfo, exact + die(r, 9, 3) - 1, farPrice(p, zfo, 3))
    }
    else (zfo, 0, lim)
  }

  // ---------------------------------------------------------------- making operations possible
  // what is missing before liquidity of `o` can be put into [lo, hi]
  pure def prepare(w: World, k: Key, s: str, o: str, lo: int, hi: int): List[Tx] =
    if (not(hasPool(w, k)) or lo >= hi) []
    else {
      val p = w.pools.get(k)
      val wl = wordOf(lo, p.sp)
      val wh = wordOf(hi, p.sp)
      val l1 = if (p.ticks.keys().contains(lo)) [] else [T(OInitTick({ s: s, p: k, t: lo }))]
      val l2 = if (p.ticks.keys().contains(hi)) l1 else l1.append(T(OInitTick({ s: s, p: k, t: hi })))
      val l3 = if (p.words.contains(wl)) l2 else l2.append(T(OInitWord({ s: s, p: k, wd: wl })))
      val l4 = if (p.words.contains(wh) or wh == wl) l3 else l3.append(T(OInitWord({ s: s, p: k, wd: wh })))
      if (hasPos(p, (o, lo, hi))) l4 else l4.append(T(OInitPos({ s: s, p: k, o: o, lo: lo, hi: hi })))
    }
  // bitmap words a swap needs although they hold no tick
  pure def words(w: World, k: Key, s: str, from: int, n: int): List[Tx] =
    if (not(hasPool(w, k))) []
    else {
      val p = w.pools.get(k)
      range(0, n).foldl([], (l, i) =>
        if (p.words.contains(from + i)) l else l.append(T(OInitWord({ s: s, p: k, wd: from + i }))))
    }
  // (a swap also gets through words that do not exist: now and then create those it is going to visit)
  pure def prepareSwap(w: World, k: Key, s: str, path: List[(str, int)]): List[Tx] = {
    val p = w.pools.get(k)
    path.foldl([], (l, e) =>
      if (e._1 == "w" and not(p.words.contains(e._2)) and mix(e._2 + w.now, keyNum(k)) % 8 == 0) l.append(T(OInitWord({ s: s, p: k, wd: e._2 }))) else l)
  }

  pure def seconds(r: int, i: int): int = {
    val l = [0, 1, 1, 2, 5, 12, 13, 14, 15, 27, 28, 29, 100, 3600, 86400, 2592000]
    val m = die(r, i, 20)
    if (m < 16) l[m]
    else die(r, i + 1, 40)
  }
  // every pool has recorded something lately (nothing may stay unrecorded for half a turn of the oracle's clock)
  pure def recent(w: World): bool =
    w.pools.keys().forall(k => { val p = w.pools.get(k) clock(w.now - p.obs.get(p.oi).ts) < 10^6 })
  // what is wrong with an operation, if anything: usually one thing at a time
  // 0, 1 the minimum of token 0; 2, 3 of token 1; 4, 5 the deadline; 6 the amount; 7, 8, 9 who acts; 10, 11 what for
  pure def fault(r: int): int = die(r, 20, 24)
  // (also "never", dates a clock of 32 bits would mistake, and dates long gone)
  pure def deadline(w: World, r: int, i: int, bad: bool): int =
    if (bad) [w.now - 1, w.now - 1, w.now - 1, w.now - 1, -1, 0, -SMAX, w.now - TIME / 2 - 1][die(r, i, 8)]
    else [w.now + 1000, w.now + 1000, w.now + 1000, w.now, w.now, w.now, w.now + 1, w.now + 1, SMAX, w.now + TIME - 1,
          w.now + TIME / 2 + 1, w.now + 1000][die(r, i, 12)]
  pure def minimum(x: int, r: int, i: int, bad: bool): int = {
    val m = die(r, i, 12)
    if (bad) (if (m < 6) x + 1 else if (m < 9) x + 1 + (r / B^i) % 97 else if (m < 11) x + max2(x / 64, 1) else WRAP - 1)
    else (if (m < 4) 0 else if (m < 9) x else max2(x - 1, 0))
  }
  pure def withdraw(x: int, r: int, i: int): int = {
    val m = die(r, i, 10)
    if (m < 4) WRAP - 1 else if (m < 6) x else if (m < 7) x + 1 else if (m < 8) 0 else if (m < 9) max2(x - 1, 0) else x / 2
  }
  pure def callback(r: int, i: int, hostile: bool): str =
    if (not(hostile)) (if (die(r, i, 8) < 6) "core" else "exact")
    else {
      val l = ["core", "exact", "over", "none", "short0", "short1", "exact", "re:swap", "re:mint", "re:burn", "re:collect",
               "re:colprot", "re:incobs", "over", "other", "other", "re:exs", "re:ninc", "re:ndec", "re:ncol"]
      l[die(r, i, 20)]
    }

  // ---------------------------------------------------------------- operations, each with its preparation
  pure def goMint(w: World, r: int, big: int, hostile: bool): List[Tx] = {
    val k = poolKey(w, r, 0)
    if (not(hasPool(w, k))) [T(OMint({ s: user(r, 1), p: k, o: user(r, 1), lo: -10, hi: 10, amt: 5, cb: "core" }))]
    else {
      val p = w.pools.get(k)
      val s = user(r, 1)
      val o = if (die(r, 2, 6) == 0) user(r, 3) else if (die(r, 2, 60) == 1) FAC else s
      val old = p.pos.keys().filter(x => x._1 == o)
      val g = if (die(r, 4, 3) == 0 and old.size() > 0) { val x = chooseBy(old, r / B^5, rangeNum, ("", 0, 0)) (x._2, x._3) }
              else someRange(p, r, 5)
      // (now and then an amount worth a whole number of tokens, that leaves nothing behind when it is withdrawn)
      val whole = if (g._1 == 0 and p.tick < 0) priceAt(g._2) * (1 + die(r, 12, 3)) else Q * (1 + die(r, 12, 2^16))
      val a = if (die(r, 10, 50) == 0) 0 else if (die(r, 10, 400) % 8 == 1 and big >= 24) whole
        else if (die(r, 10, 400) == 2 or die(r, 10, 400) == 3) edge(if (p.pos.keys().contains((o, g._1, g._2))) p.pos.get((o, g._1, g._2)).liq else 1, r, 11)
        else logAmount(r, 11, big)
      prepare(w, k, s, o, g._1, g._2)
        .append(T(OMint({ s: s, p: k, o: o, lo: g._1, hi: g._2, amt: a, cb: callback(r, 13, hostile) })))
    }
  }
  // a second position, adjacent to an existing one and of the same liquidity, and an attempt to close their common tick
  pure def goAdjacent(w: World, r: int, close: bool): List[Tx] = {
    val k = poolKey(w, r, 0)
    if (not(hasPool(w, k))) []
    else {
      val p = w.pools.get(k)
      val s = user(r, 1)
      val x = somePos(p, r, 2, x => p.pos.get(x).liq > 0)
      val n = (1 + die(r, 3, 6)) * p.sp
      val up = die(r, 4, 2) == 0
      val lo = if (up) x._3 else x._2 - n
      val hi = if (up) x._3 + n else x._2
      if (x._1 == "" or clampTick(lo, p.sp) != lo or clampTick(hi, p.sp) != hi) []
      else prepare(w, k, s, s, lo, hi)
        .append(T(OMint({ s: s, p: k, o: s, lo: lo, hi: hi, amt: p.pos.get(x).liq, cb: "core" })))
        .concat(if (close) [T(OCloseTick({ p: k, t: if (up) lo else hi, r: s }))] else [])
    }
  }
  pure def goBurn(w: World, r: int): List[Tx] = {
    val k = poolKey(w, r, 0)
    if (not(hasPool(w, k))) []
    else {
      val p = w.pools.get(k)
      val live = die(r, 1, 12) > 0
      val x = somePos(p, r, 2, x => x._1 != FAC and (not(live) or p.pos.get(x).liq > 0))
      if (x._1 == "") []
      else {
        val l = p.pos.get(x).liq
        val m = die(r, 4, 12)
        val a = if (die(r, 6, 30) == 0) edge(l, r, 7) else if (m < 4) l else if (m < 6) l / 2 else if (m < 7) 1 else if (m < 8) l + 1 else if (m < 11) 0 else max2(l - 1, 0)
        val s = if (die(r, 5, 15) == 0) "atk" else x._1
        [T(OBurn({ s: s, p: k, o: x._1, lo: x._2, hi: x._3, amt: a }))]
      }
    }
  }
  pure def goCollect(w: World, r: int): List[Tx] = {
    val k = poolKey(w, r, 0)
    if (not(hasPool(w, k))) []
    else {
      val p = w.pools.get(k)
      val owed = die(r, 1, 5) > 0
      val x = somePos(p, r, 2, x => x._1 != FAC and (not(owed) or p.pos.get(x).o0 + p.pos.get(x).o1 > 0))
      if (x._1 == "") []
      else {
        val s = if (die(r, 5, 15) == 0) "atk" else x._1
        [T(OCollect({ s: s, p: k, o: x._1, lo: x._2, hi: x._3, a0: withdraw(p.pos.get(x).o0, r, 6),
                      a1: withdraw(p.pos.get(x).o1, r, 7), r: if (die(r, 8, 3) == 0) anyUser(r, 9) else s }))]
      }
    }
  }
  pure def goSwap(w: World, r: int, big: int, hostile: bool): List[Tx] = {
    val k = poolKey(w, r, 12)
    val s = user(r, 13)
    if (not(hasPool(w, k))) [T(OSwap({ s: s, p: k, zfo: true, amt: 5, lim: MIN_PRICE + 1, cb: "core" }))]
    else {
      val c0 = someSwap(w, k, r, big)
      val c = (c0._1, max2(-SMAX - 1, min2(SMAX, c0._2)), c0._3)
      val op = OSwap({ s: s, p: k, zfo: c._1, amt: c._2, lim: c._3, cb: callback(r, 14, hostile) })
      val path = swapPath(w, k, c._1, c._2, c._3)
      (if (path == [[]]) [] else prepareSwap(w, k, s, path[0])).append(T(op))
    }
  }
  pure def goExSingle(w: World, r: int, big: int): List[Tx] = {
    val k = poolKey(w, r, 12)
    val s = user(r, 13)
    if (not(hasPool(w, k))) []
    else {
      val c = someSwap(w, k, r, big)
      val amt = if (die(r, 10, 40) == 0) edge(abs(c._2), r, 9) else min2(abs(c._2), WRAP - 1)
      val lim = if (die(r, 11, 4) == 0 and wide(w.pools.get(k))) 0 else c._3
      val e = exactIn(w, s, k, c._1, amt, lim)
      val op = OExSingle({ s: s, p: k, zfo: c._1, amt: amt, min: minimum(e.x1, r, 14, fault(r) < 4), lim: lim, dl: deadline(w, r, 15, fault(r) == 4) })
      (if (e.r.path == []) [] else prepareSwap(w, k, s, e.r.path[0])).append(T(op))
    }
  }
  pure def goExIn(w: World, r: int, big: int): List[Tx] = {
    val s = user(r, 0)
    val n = [1, 2, 3, 1, 2, 3, 2, 4, 5][die(r, 1, 9)]
    val t0 = die(r, 2, 3)
    val wrong = die(r, 3, 12) == 0
    // a chain of hops starting from token t0
    val hops: (List[(Key, bool)], int) = range(0, n).foldl(([], t0), (a, i) => {
      val c = w.pools.keys().filter(k => wrong or k._1 == a._2 or k._2 == a._2)
      if (c == Set()) a
      else {
        val k = chooseBy(c, r / B^(4 + i), keyNum, NO_KEY)
        (a._1.append((k, k._1 == a._2)), if (k._1 == a._2) k._2 else k._1)
      }
    })
    val amt = if (die(r, 12, 40) == 0) edge(2^20, r, 13) else logAmount(r, 8, big)
    if (hops._1 == []) []
    else {
      val e = exIn(w, s, hops._1, amt, 0, w.now)
      val out = hops._1.foldl((w, amt), (a, h) => { val c = exactIn(a._1, s, h._1, h._2, a._2, 0) (c.r.w, c.x1) })._2
      val prep = range(0, min2(e.path.length(), hops._1.length())).foldl([], (l, i) =>
        if (hasPool(w, hops._1[i]._1)) l.concat(prepareSwap(w, hops._1[i]._1, s, e.path[i])) else l)
      prep.append(T(OExIn({ s: s, hops: hops._1, amt: amt, min: minimum(out, r, 10, fault(r) < 4), dl: deadline(w, r, 11, fault(r) == 4) })))
    }
  }

  // desired amounts of roughly the same weight
  // amounts offered
  pure def desired(r: int, i: int, big: int, odd: bool): (int, int) = {
    val a = logAmount(r, i, big)
    val m = die(r, i + 2, 10)
    if (odd) [(a, edge(1, r, i + 3)), (edge(1, r, i + 3), a), (a, 0), (0, a)][die(r / 10, i + 2, 4)]
    else if (m < 6) (a, a) else (a, logAmount(r, i + 3, big))
  }
  pure def freshNft(w: World): int = w.nfts.keys().fold(0, (m, n) => max2(m, n)) + 1
  pure def goNMint(w: World, r: int, big: int): List[Tx] = {
    val k = poolKey(w, r, 0)
    if (not(hasPool(w, k))) []
    else {
      val p = w.pools.get(k)
      val s = user(r, 1)
      val every = p.pos.keys().filter(x => x._1 == FAC)
      val near = every.filter(x => x._2 <= p.tick and p.tick < x._3)
      val same = if (die(r, 16, 3) > 0 and near != Set()) near else every
      val g = if (die(r, 4, 2) == 0 and same.size() > 0) { val x = chooseBy(same, r / B^5, rangeNum, ("", 0, 0)) (x._2, x._3) }
              else {
                // the range of a position in another pool
                val twins = w.nfts.keys().map(x => w.nfts.get(x)).filter(x => x.pool != k and hasPool(w, x.pool) and clampTick(x.lo, p.sp) == x.lo
                  and clampTick(x.hi, p.sp) == x.hi and x.lo % p.sp == 0 and x.hi % p.sp == 0)
                if (die(r / 2, 4, 3) == 0 and twins != Set()) {
                  val x = chooseBy(twins, r / B^5, y => y.lo * 31 + y.hi, w.nfts.get(chooseInt(w.nfts.keys(), 1, 1)))
                  (x.lo, x.hi)
                }
                else if (die(r / 6, 4, 2) == 0) {
                  // around the price
                  val c = fdiv(p.tick, p.sp)
                  val lo = clampTick((c - die(r, 5, 12)) * p.sp, p.sp)
                  (lo, max2(lo + p.sp, clampTick((c + 1 + die(r, 6, 12)) * p.sp, p.sp)))
                }
                else someRange(p, r, 5)
              }
      val d = desired(r, 10, big, fault(r) == 6)
      val n = if (die(r, 2, 20) == 0 and w.nfts.keys().size() > 0) chooseInt(w.nfts.keys(), r, 1) else freshNft(w)
      val a = addLiquidity(w, s, k, g._1, g._2, d._1, d._2)
      val l = if (g._1 >= g._2) (0, 0)
              else {
                val q = liquidityFor(p.price, priceAt(g._1), priceAt(g._2), d._1, d._2)._1
                val inR = g._1 <= p.tick and p.tick < g._2
                (if (p.tick < g._1) amount0(priceAt(g._1), priceAt(g._2), q, true) else if (inR) amount0(p.price, priceAt(g._2), q, true) else 0,
                 if (p.tick < g._1) 0 else if (inR) amount1(priceAt(g._1), p.price, q, true) else amount1(priceAt(g._1), priceAt(g._2), q, true))
              }
      prepare(w, k, s, FAC, g._1, g._2).append(T(ONMint({ s: s, r: if (die(r, 15, 4) == 0) anyUser(r, 3) else s, n: n, p: k,
        lo: g._1, hi: g._2, d0: d._1, d1: d._2, m0: minimum(l._1, r, 8, fault(r) < 2), m1: minimum(l._2, r, 9, fault(r) == 2 or fault(r) == 3),
        dl: deadline(w, r, 14, fault(r) == 4 or fault(r) == 5) })))
    }
  }
  pure def someNft(w: World, r: int, i: int): int =
    if (die(r, i, 50) == 0) freshNft(w)
    else {
      val near = w.nfts.keys().filter(n => { val t = w.nfts.get(n)
        hasPool(w, t.pool) and t.liq > 0 and t.lo <= w.pools.get(t.pool).tick and w.pools.get(t.pool).tick < t.hi })
      val live = w.nfts.keys().filter(n => w.nfts.get(n).liq > 0)
      val m = die(r / 50, i, 16)
      chooseInt(if (m < 10 and near != Set()) near else if (m < 15 and live != Set()) live else w.nfts.keys(), r / B^i, 1)
    }
  // pool and range presented for an NFT: usually its own
  pure def presented(w: World, n: int, r: int, i: int): (Key, int, int) =
    if (not(hasNft(w, n))) (chooseBy(w.pools.keys(), r, keyNum, NO_KEY), 0, 60)
    else if (fault(r) == 10 and w.pools.keys().exists(k => k != w.nfts.get(n).pool and hasPos(w.pools.get(k), (FAC, w.nfts.get(n).lo, w.nfts.get(n).hi)))) {
      // the same range in another pool
      val t = w.nfts.get(n)
      val k = chooseBy(w.pools.keys().filter(k => k != t.pool and hasPos(w.pools.get(k), (FAC, t.lo, t.hi))), r / B^i, keyNum, t.pool)
      (k, t.lo, t.hi)
    }
    else if ((fault(r) == 10 or fault(r) == 11)) {
      val others = w.nfts.keys().filter(m => not(bound(w, n, w.nfts.get(m).pool, w.nfts.get(m).lo, w.nfts.get(m).hi)))
      val m = chooseInt(others, r / B^i, n)
      (w.nfts.get(m).pool, w.nfts.get(m).lo, w.nfts.get(m).hi)
    }
    else (w.nfts.get(n).pool, w.nfts.get(n).lo, w.nfts.get(n).hi)
  // who acts for an NFT, through which account: usually the holder or the delegate
  pure def actor(w: World, n: int, r: int, i: int): (str, int, str) =
    if (not(hasNft(w, n))) ("u1", n, "u1")
    else {
      val t = w.nfts.get(n)
      val h = t.acc.keys().fold("u1", (x, u) => if (t.acc.get(u).amt == 1) u else x)
      val m = if (7 <= fault(r) and fault(r) <= 9) 12 + die(r, i, 4) else die(r, i, 12)
      if (m < 9) (h, n, h)
      else if (m < 12 and t.acc.get(h).del != "") (t.acc.get(h).del, n, h)
      else if (m == 12) (anyUser(r, i + 1), n, h)
      else if (m == 13) { val u = anyUser(r, i + 1) (u, n, u) }
      else if (m == 14) {
        // an NFT the actor does hold, presented for this one
        val others = w.nfts.keys().filter(x => x != n)
        val x = chooseInt(others, r / B^i, n)
        val hx = w.nfts.get(x).acc.keys().fold("u1", (y, u) => if (w.nfts.get(x).acc.get(u).amt == 1) u else y)
        (hx, x, hx)
      }
      else {
        // an account that no longer holds it
        val u = chooseBy(t.acc.keys(), r / B^i, userNum, h)
        (u, n, u)
      }
    }
  pure def hasAcc(w: World, n: int, u: str): bool = hasNft(w, n) and w.nfts.get(n).acc.keys().contains(u)
  pure def goNInc(w: World, r: int, big: int): List[Tx] =
    if (w.nfts.keys().size() == 0) goNMint(w, r, big)
    else {
      val n = someNft(w, r, 0)
      val g = presented(w, n, r, 1)
      val s = user(r, 2)
      val d = desired(r, 3, big, fault(r) == 6)
      val ok = hasPool(w, g._1) and g._2 < g._3
      val l = if (not(ok)) (0, 0) else {
        val p = w.pools.get(g._1)
        val q = liquidityFor(p.price, priceAt(g._2), priceAt(g._3), d._1, d._2)._1
        val inR = g._2 <= p.tick and p.tick < g._3
        (if (p.tick < g._2) amount0(priceAt(g._2), priceAt(g._3), q, true) else if (inR) amount0(p.price, priceAt(g._3), q, true) else 0,
         if (p.tick < g._2) 0 else if (inR) amount1(priceAt(g._2), p.price, q, true) else amount1(priceAt(g._2), priceAt(g._3), q, true))
      }
      [T(ONInc({ s: s, n: n, p: g._1, lo: g._2, hi: g._3, d0: d._1, d1: d._2,
                 m0: minimum(l._1, r, 8, fault(r) < 2), m1: minimum(l._2, r, 9, fault(r) == 2 or fault(r) == 3),
        dl: deadline(w, r, 10, fault(r) == 4 or fault(r) == 5) }))]
    }
  pure def goNDec(w: World, r: int): List[Tx] =
    if (w.nfts.keys().size() == 0) []
    else if (die(r, 13, 6) > 0 and w.nfts.keys().forall(n => w.nfts.get(n).liq == 0)) goNMint(w, r, 33)
    else {
      val n = someNft(w, r, 0)
      val g = presented(w, n, r, 1)
      val a = actor(w, n, r, 2)
      val l = if (hasNft(w, n)) w.nfts.get(n).liq else 1
      val m = die(r, 4, 12)
      val q = if (fault(r) == 6) [edge(l, r, 9), l + 1, 0][die(r, 8, 3)]
        else if (m < 2) l else if (m < 5) max2(l / 2, 1) else if (m < 7) max2(l / 3, 1) else if (m < 9) 1 else max2(l - 1, 1)
      val c = burn(w, g._1, FAC, g._2, g._3, q)
      if (not(hasAcc(w, a._2, a._3))) []
      else [T(ONDec({ s: a._1, n: n, an: a._2, au: a._3, p: g._1, lo: g._2, hi: g._3, liq: q,
                      m0: minimum(c.x0, r, 5, fault(r) < 2), m1: minimum(c.x1, r, 6, fault(r) == 2 or fault(r) == 3),
        dl: deadline(w, r, 7, fault(r) == 4 or fault(r) == 5) }))]
    }
  pure def goNCol(w: World, r: int): List[Tx] =
    if (w.nfts.keys().size() == 0) []
    else {
      val n = someNft(w, r, 0)
      val g = presented(w, n, r, 1)
      val a = actor(w, n, r, 2)
      val t = nCol(w, a._1, n, a._2, a._3, g._1, g._2, g._3, 1, 1, a._1)
      val o0 = if (t.ok) t.w.nfts.get(n).o0 + 1 else 5
      val o1 = if (t.ok) t.w.nfts.get(n).o1 + 1 else 5
      if (not(hasAcc(w, a._2, a._3))) []
      else [T(ONCol({ s: a._1, n: n, an: a._2, au: a._3, p: g._1, lo: g._2, hi: g._3, a0: withdraw(o0, r, 5),
                      a1: withdraw(o1, r, 6), r: if (die(r, 7, 3) == 0) anyUser(r, 8) else a._1 }))]
    }
  // time for the next slot, and something that is recorded there
  pure def goRecord(w: World, r: int): List[Tx] = {
    val k = chooseBy(w.pools.keys().filter(k => w.pools.get(k).cn > 1), r, keyNum, NO_KEY)
    if (not(hasPool(w, k))) [T(OIncObs({ s: "u1", p: chooseBy(w.pools.keys(), r, keyNum, NO_KEY), n: 255 + die(r, 3, 3) }))]
    // and grown once more when more than a byte's worth of slots is in use
    else if (w.pools.get(k).oi >= 254 and w.pools.get(k).cn < 259) [T(OIncObs({ s: "u1", p: k, n: 3 + die(r, 3, 3) }))]
    else {
      val p = w.pools.get(k)
      val x = somePos(p, r, 2, x => x._2 <= p.tick and p.tick < x._3)
      val dt = T(ETime({ dt: [14, 14, 14, 15, 28][die(r, 4, 5)] }))
      if (x._1 == "" or die(r, 5, 16) == 0) [dt].concat(goSwap(w, r / B^6, 12, false))
      else [dt, T(OMint({ s: x._1, p: k, o: x._1, lo: x._2, hi: x._3, amt: 1 + die(r, 6, 1000), cb: "core" }))]
    }
  }
  // everybody with a position in a pool leaves it: all liquidity, then everything owed; and the protocol's fees are collected
  pure def goExit(w: World, r: int): List[Tx] = {
    val k = poolKey(w, r, 0)
    if (not(hasPool(w, k))) []
    else {
      val p = w.pools.get(k)
      val nfts = w.nfts.keys().filter(n => w.nfts.get(n).pool == k).fold([], (l, n) => {
        val t = w.nfts.get(n)
        val h = t.acc.keys().fold("u1", (x, u) => if (t.acc.get(u).amt == 1) u else x)
        l.concat([T(ONDec({ s: h, n: n, an: n, au: h, p: k, lo: t.lo, hi: t.hi, liq: t.liq, m0: 0, m1: 0, dl: w.now + 100000000 })),
                  T(ONCol({ s: h, n: n, an: n, au: h, p: k, lo: t.lo, hi: t.hi, a0: WRAP - 1, a1: WRAP - 1, r: h }))])
      })
      val own = p.pos.keys().filter(x => x._1 != FAC).fold([], (l, x) => {
        val q = p.pos.get(x).liq
        val out = T(OCollect({ s: x._1, p: k, o: x._1, lo: x._2, hi: x._3, a0: WRAP - 1, a1: WRAP - 1, r: x._1 }))
        l.concat(if (q == 0) [out] else [T(OBurn({ s: x._1, p: k, o: x._1, lo: x._2, hi: x._3, amt: min2(q, SMAX) })), out])
      })
      val out = if (die(r, 1, 2) == 0) nfts.concat(own) else own.concat(nfts)
      val fees = [T(OColProt({ s: w.fac.owner, p: k, a0: WRAP - 1, a1: WRAP - 1, r: w.fac.owner }))]
      val m = die(r, 2, 4)
      if (m == 0) out else if (m == 1) fees.concat(out) else out.concat(fees)
    }
  }
  pure def goNEnv(w: World, r: int): List[Tx] =
    if (w.nfts.keys().size() == 0) []
    else {
      val n = chooseInt(w.nfts.keys(), r, 1)
      val t = w.nfts.get(n)
      val h = t.acc.keys().fold("u1", (x, u) => if (t.acc.get(u).amt == 1) u else x)
      val m = die(r, 1, 10)
      if (m < 4) {
        val d = t.acc.get(h).del
        val s = if (d != "" and die(r, 2, 3) == 0) d else if (die(r, 3, 10) == 0) anyUser(r, 4) else h
        [T(EXfer({ s: s, n: n, from: if (die(r, 5, 12) == 0) chooseBy(t.acc.keys(), r, userNum, h) else h, dst: anyUser(r, 6) }))]
      }
      else if (m < 8) {
        val s = if (die(r, 5, 12) == 0) chooseBy(t.acc.keys(), r, userNum, h) else h
        [T(EAppr({ s: s, n: n, dst: anyUser(r, 6), amt: [1, 1, 0, 2][die(r, 7, 4)] }))]
      }
      else if (m < 9) [T(ERev({ s: h, n: n }))]
      else [T(ONMeta({ s: anyUser(r, 6), n: n }))]
    }

  pure def goGov(w: World, r: int): List[Tx] = {
    val m = die(r, 0, 20)
    val s = if (die(r, 1, 4) == 0) anyUser(r, 2) else w.fac.owner
    if (m < 3) [T(OSetOwner({ s: s, dst: anyUser(r, 3) }))]
    else if (m < 8) [T(OSetFeeProt({ s: s, v: [0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 255][die(r, 3, 12)] }))]
    else if (m < 12) {
      val x = die(r, 4, 12)
      [T(OEnableFee({ s: s, fee: if (x < 7) TIERS[x]._1 else [0, 1, 999999, 1000000, 4294967295][x - 7],
        spacing: if (x < 7) TIERS[x]._2 else [0, 1, 16383, 16384, 65535][die(r, 5, 5)] }))]
    }
    else if (m < 13) [T(OInitFactory({ s: anyUser(r, 3) }))]
    else {
      val k = poolKey(w, r, 4)
      if (not(hasPool(w, k))) []
      else [T(OColProt({ s: s, p: k, a0: withdraw(w.pools.get(k).p0, r, 5), a1: withdraw(w.pools.get(k).p1, r, 6), r: anyUser(r, 7) }))]
    }
  }
  pure def goCreate(w: World, r: int): List[Tx] = {
    val a = die(r, 0, 3)
    val b = die(r, 1, 3)
    val t0 = TIERS[die(r, 2, 5)]
    // usually a tier that is enabled
    val f = chooseInt(w.tiers.keys(), r / B^9, t0._1)
    val t = if (die(r, 9, 6) > 0 and w.tiers.keys() != Set()) (f, w.tiers.get(f)) else t0
    val m = die(r, 3, 10)
    val price = if (m < 6) priceAt(die(r, 4, 1600) - 800) + die(r, 5, 3) - 1
      else if (m < 7) priceAt(die(r, 4, 40000) * 10 - 200000) + die(r, 5, 3) - 1
      else if (m == 7) [MIN_PRICE, MIN_PRICE - 1, MIN_PRICE + 1, MAX_PRICE, MAX_PRICE - 1, MAX_PRICE - 2][die(r, 4, 6)]
      else priceAt((die(r, 4, 7) - 3) * t._2 * WORD) + die(r, 5, 3) - 1
    [T(OCreatePool({ s: anyUser(r, 6), t0: if (die(r, 7, 6) == 0) a else min2(a, b), t1: if (die(r, 7, 6) == 0) b else max2(a, b),
                     fee: if (die(r, 8, 15) == 0) 4242 else t._1, price: price }))]
  }
  pure def goLife(w: World, r: int): List[Tx] = {
    val k = poolKey(w, r, 0)
    if (not(hasPool(w, k))) [T(OInitTick({ s: user(r, 1), p: k, t: 0 }))]
    else {
      val p = w.pools.get(k)
      val m = die(r, 2, 20)
      val s = anyUser(r, 3)
      val t = someTick(p, r, 4)
      val b = die(r, 7, 60000)
      if (m < 3) [T(OInitTick({ s: s, p: k, t: t }))]
      else if (m < 5) [T(OInitTick({ s: s, p: k, t: t + (b % 5 - 2) }))]
      else if (m < 6) [T(OInitTick({ s: s, p: k, t: [MIN_TICK, MAX_TICK, MIN_TICK - p.sp, MAX_TICK + p.sp, clampTick(MIN_TICK, p.sp) - p.sp, clampTick(MAX_TICK, p.sp) + p.sp, clampTick(MIN_TICK, p.sp), clampTick(MAX_TICK, p.sp)][b % 8] }))]
      else if (m < 12) [T(OCloseTick({ p: k, t: if (b % 4 > 0) chooseInt(p.ticks.keys().filter(x => b % 4 > 2 or (b % 4 == 2 and p.ticks.get(x).net == 0) or p.ticks.get(x).gross == 0), b, t) else t, r: s }))]
      else if (m < 14) [T(OInitWord({ s: s, p: k, wd: wordOf(t, p.sp) + b % 3 - 1 }))]
      else if (m < 15) [T(OInitWord({ s: s, p: k, wd: if (b % 2 == 0) fdiv(tdiv(MIN_TICK, p.sp), WORD) - (b / 2) % 2 else fdiv(tdiv(MAX_TICK, p.sp), WORD) + (b / 2) % 2 }))]
      else if (m < 19) {
        val lo = chooseInt(p.ticks.keys(), b, t)
        val hi = chooseInt(p.ticks.keys(), b + 77, t)
        [T(OInitPos({ s: s, p: k, o: user(r, 8), lo: if (b % 5 == 0) lo else min2(lo, hi), hi: if (b % 5 == 0) hi else max2(lo, hi) }))]
      }
      else [T(EDonate({ s: user(r, 8), p: k, side: b % 2, amt: logAmount(r, 9, 20) }))]
    }
  }
  pure def goObs(w: World, r: int): List[Tx] = {
    val k = poolKey(w, r, 0)
    if (hasPool(w, k) and w.pools.get(k).cn > 12) []
    // mostly step by step, once all slots are in use, so that the ring grows more than once
    else if (hasPool(w, k) and w.pools.get(k).cn > w.pools.get(k).card and die(r, 3, 4) > 0) []
    else [T(OIncObs({ s: user(r, 1), p: k, n: if (die(r, 4, 4) == 0) die(r, 2, 5) else [1, 1, 2][die(r, 2, 3)] }))]
  }

  // a payment callback invoked by a user
  pure def goPay(w: World, r: int): List[Tx] = {
    val k = poolKey(w, r, 0)
    val s = user(r, 1)
    val a = die(r, 2, 8)
    val x = if (a == 0) 0 else if (a == 1) 1 else if (a == 2) bal(w, s, k._1) + die(r, 3, 2) else logAmount(r, 4, 30)
    val y = if (a == 3) 0 else if (a == 4) bal(w, s, k._2) + die(r, 3, 2) else logAmount(r, 6, 30)
    if (die(r, 8, 2) == 0) [T(OPayMint({ s: s, p: k, a0: x, a1: y }))]
    else {
      // sometimes with the signs of an actual swap
      val m = die(r, 9, 6)
      [T(OPaySwap({ s: s, p: k, zfo: die(r, 10, 2) == 0, d0: if (m < 3) min2(x, SMAX) else if (m == 3) 0 else -min2(x, SMAX),
                    d1: if (m < 2) -min2(y, SMAX) else if (m == 2) 0 else min2(y, SMAX) }))]
    }
  }

  // lamports sent to an address where an account is, or is about to be, and what makes or closes that account
  pure def goFund(w: World, r: int): List[Tx] = {
    val k = poolKey(w, r, 0)
    val s = user(r, 1)
    val by = user(r, 2)
    val m = die(r, 3, 12)
    val b = die(r, 4, 60000)
    if (not(hasPool(w, k))) []
    else {
      val p = w.pools.get(k)
      val t = someTick(p, r, 5)
      val wd = wordOf(t, p.sp)
      val n = freshNft(w)
      val f = [77, 123, 2500, 40000][b % 4]
      val idle = chooseInt(p.ticks.keys().filter(x => p.ticks.get(x) == NO_TICK), b, t)
      val x: (Place, List[Tx]) =
        if (m < 3) (plObs(k, p.cn + b % 2), [T(OIncObs({ s: by, p: k, n: 1 + (b / 2) % 2 }))])
        else if (m < 5) (plTick(k, t), if (p.ticks.keys().contains(t)) [T(OCloseTick({ p: k, t: t, r: by }))] else [T(OInitTick({ s: by, p: k, t: t }))])
        else if (m < 7) (plTick(k, idle), [T(OCloseTick({ p: k, t: idle, r: by }))])
        else if (m < 8) (plWord(k, wd), [T(OInitWord({ s: by, p: k, wd: wd }))])
        else if (m < 9) {
          val c = chooseInt(p.ticks.keys(), b, 0)
          val d = chooseInt(p.ticks.keys(), b + 7, 0)
          (plPos(k, (s, min2(c, d), max2(c, d))), [T(OInitPos({ s: by, p: k, o: s, lo: min2(c, d), hi: max2(c, d) }))])
        }
        else if (m < 10) {
          val z = somePos(p, r, 7, z => z._2 < z._3)
          ([plNft(n), plMint(n), plAcc(n, by)][b % 3], if (z._1 == "") [] else
            prepare(w, k, by, FAC, z._2, z._3).append(T(ONMint({ s: by, r: by, n: n, p: k, lo: z._2, hi: z._3, d0: 2^20, d1: 2^20, m0: 0, m1: 0, dl: w.now + 10 }))))
        }
        else if (m < 11) (plTier(f), [T(OEnableFee({ s: w.fac.owner, fee: f, spacing: 5 }))])
        else {
          val f2 = chooseInt(w.tiers.keys(), b, 3000)
          (if (b % 2 == 0) plPool((0, 2, f2)) else plObs((0, 2, f2), 0), [T(OCreatePool({ s: by, t0: 0, t1: 2, fee: f2, price: priceAt(b % 100) }))])
        }
      val a = [890880, rent(x._1._1) - 1, rent(x._1._1), rent(x._1._1) + 1, 10000000, 1000000][die(r, 9, 6)]
      val send = T(EFund({ s: s, pl: x._1, amt: a }))
      if (die(r, 10, 6) == 0) [send] else [send].concat(x._2)
    }
  }

  // in-range accumulators of a range in use, or of any two ticks
  pure def goSnap(w: World, r: int): List[Tx] = {
    val k = poolKey(w, r, 0)
    if (not(hasPool(w, k))) []
    else {
      val p = w.pools.get(k)
      val x = somePos(p, r, 1, x => p.pos.get(x).liq > 0)
      if (x._1 != "" and die(r, 4, 4) > 0) [T(ESnap({ p: k, lo: x._2, hi: x._3 }))]
      else {
        val a = chooseInt(p.ticks.keys(), die(r, 5, 60000), 0)
        val b = chooseInt(p.ticks.keys(), die(r, 6, 60000), 0)
        if (a == b) [] else [T(ESnap({ p: k, lo: min2(a, b), hi: max2(a, b) }))]
      }
    }
  }

  // ---------------------------------------------------------------- substituted accounts
  pure val PROGRAM_ACC = Set("fake", "other", "type", "empty")
  // also: an account of the same kind and pool
  pure val POOL_ACC = Set("fake", "other", "type", "near", "empty")
  pure val VAULT = Set("spare", "owned", "other", "empty")
  pure def slots(names: Set[str], kinds: Set[str]): Set[(str, str)] = tuples(names, kinds)
  pure def pathSlots(r: Res): Set[(str, str)] =
    if (r.path.length() == 0) Set()
    else slots(range(0, min2(r.path[0].length(), 6)).foldl(Set(), (s, i) => s.union(Set(["r0", "r1", "r2", "r3", "r4", "r5"][i]))), POOL_ACC)
  // does the operation take token t out of the signer's wallet?
  pure def spends(w: World, r: Res, u: str, t: int): bool = bal(r.w, u, t) < bal(w, u, t)
  pure def victim(w: World, r: Res, u: str, t: int, slot: str): Set[(str, str)] =
    if (spends(w, r, u, t)) Set((slot, "victim")) else Set()
  // substitutions that must make the successful operation fail
  pure def substitutions(w: World, op: Op, r: Res): Set[(str, str)] = match op {
    | OInitFactory(o) => Set(("s", "nosign"), ("factory", "user"), ("system", "fake"))
    | OSetOwner(o) => Set(("s", "nosign"), ("factory", "fake"), ("factory", "type"))
    | OEnableFee(o) => Set(("s", "nosign"), ("factory", "fake"), ("factory", "type"), ("fee", "other"), ("system", "fake"))
    | OSetFeeProt(o) => Set(("s", "nosign"), ("factory", "fake"), ("factory", "type"))
    | OColProt(o) => Set(("s", "nosign"), ("factory", "fake"), ("factory", "type"), ("token", "fake"), ("vaults", "crossed"))
        .union(slots(Set("pool"), PROGRAM_ACC)).union(slots(Set("v0", "v1"), VAULT))
    | OCreatePool(o) => Set(("s", "nosign"), ("system", "fake"), ("t0", "other"), ("t1", "other"), ("fee", "fake"), ("fee", "other"),
        ("fee", "type"), ("pool", "other"), ("obs", "other"))
    | OIncObs(o) => Set(("s", "nosign"), ("system", "fake"))
        .union(slots(Set("pool"), Set("fake", "type"))).union(if (o.n > 0) Set(("r0", "other"), ("pool", "other")) else Set())
    | OInitTick(o) => Set(("s", "nosign"), ("system", "fake"), ("tick", "other")).union(slots(Set("pool"), PROGRAM_ACC))
    | OCloseTick(o) => Set(("tick", "fake"), ("tick", "type"), ("tick", "empty"))
    | OInitWord(o) => Set(("s", "nosign"), ("system", "fake"), ("word", "other")).union(slots(Set("pool"), PROGRAM_ACC))
    | OInitPos(o) => Set(("s", "nosign"), ("system", "fake"), ("pos", "other"), ("recipient", "user"), ("ticks", "crossed"))
        .union(slots(Set("pool"), PROGRAM_ACC)).union(slots(Set("lo", "hi"), Set("fake", "type", "empty")))
    | OMint(o) => Set(("s", "nosign"), ("recipient", "user"), ("token", "fake"), ("ticks", "crossed"), ("vaults", "crossed"))
        .union(slots(Set("v0", "v1"), VAULT)).union(slots(Set("pool", "lo", "hi", "wlo", "whi", "pos", "obs"), POOL_ACC))
        .union(victim(w, r, o.s, o.p._1, "w0")).union(victim(w, r, o.s, o.p._2, "w1"))
        .union(if (r.w.pools.get(o.p).oi != w.pools.get(o.p).oi) pathSlots(r) else Set())
    | OBurn(o) => Set(("s", "nosign"), ("ticks", "crossed"))
        .union(slots(Set("pool", "lo", "hi", "wlo", "whi", "pos", "obs"), POOL_ACC))
        .union(if (r.w.pools.get(o.p).oi != w.pools.get(o.p).oi) pathSlots(r) else Set())
    | OCollect(o) => Set(("s", "nosign"), ("token", "fake"), ("ticks", "crossed"), ("vaults", "crossed"))
        .union(slots(Set("v0", "v1"), VAULT)).union(slots(Set("pool", "lo", "hi", "pos"), POOL_ACC))
    | OSwap(o) => Set(("s", "nosign"), ("token", "fake"), ("factory", "fake"), ("factory", "type"))
        .union(slots(Set("vin", "vout"), VAULT)).union(slots(Set("pool", "obs"), POOL_ACC)).union(pathSlots(r))
        .union(victim(w, r, o.s, if (o.zfo) o.p._1 else o.p._2, "win"))
    | ONMint(o) => Set(("s", "nosign"), ("factory", "fake"), ("factory", "type"), ("token", "fake"), ("system", "fake"), ("core", "fake"),
        ("ticks", "crossed"), ("vaults", "crossed"), ("recipient", "user"), ("nacc", "other"), ("nmint", "other"), ("nrec", "other"))
        .union(slots(Set("v0", "v1"), VAULT)).union(slots(Set("pool", "lo", "hi", "wlo", "whi", "pos", "obs"), POOL_ACC))
        .union(victim(w, r, o.s, o.p._1, "w0")).union(victim(w, r, o.s, o.p._2, "w1"))
        .union(if (r.w.pools.get(o.p).oi != w.pools.get(o.p).oi) pathSlots(r) else Set())
    | ONMeta(o) => Set(("factory", "fake"), ("factory", "type"), ("nmint", "other"), ("nrec", "fake"), ("nrec", "other"), ("nrec", "type"), ("nrec", "empty"))
    | ONInc(o) => Set(("s", "nosign"), ("factory", "fake"), ("factory", "type"), ("token", "fake"), ("core", "fake"),
        ("ticks", "crossed"), ("vaults", "crossed"))
        .union(slots(Set("v0", "v1"), VAULT)).union(slots(Set("nrec", "pool", "lo", "hi", "wlo", "whi", "pos", "obs"), POOL_ACC))
        .union(victim(w, r, o.s, o.p._1, "w0")).union(victim(w, r, o.s, o.p._2, "w1"))
        .union(if (r.w.pools.get(o.p).oi != w.pools.get(o.p).oi) pathSlots(r) else Set())
    | ONDec(o) => Set(("s", "nosign"), ("factory", "fake"), ("factory", "type"), ("core", "fake"), ("ticks", "crossed"),
        ("nacc", "other"), ("nacc", "spare"), ("nacc", "fake"), ("nacc", "empty"))
        .union(slots(Set("nrec", "pool", "lo", "hi", "wlo", "whi", "pos", "obs"), POOL_ACC))
        .union(if (r.w.pools.get(o.p).oi != w.pools.get(o.p).oi) pathSlots(r) else Set())
    | ONCol(o) => Set(("s", "nosign"), ("factory", "fake"), ("factory", "type"), ("core", "fake"), ("token", "fake"), ("ticks", "crossed"),
        ("vaults", "crossed"), ("nacc", "other"), ("nacc", "spare"), ("nacc", "fake"), ("nacc", "empty"))
        .union(slots(Set("v0", "v1"), VAULT)).union(slots(Set("nrec", "pool", "lo", "hi", "pos"), POOL_ACC))
        .union(if (w.nfts.get(o.n).liq > 0) slots(Set("wlo", "whi", "obs"), POOL_ACC) else Set())
    | OExSingle(o) => Set(("s", "nosign"), ("token", "fake"), ("factory", "fake"), ("factory", "type"), ("core", "fake"))
        .union(slots(Set("vin", "vout"), VAULT)).union(slots(Set("pool", "obs"), POOL_ACC)).union(pathSlots(r))
        .union(victim(w, r, o.s, if (o.zfo) o.p._1 else o.p._2, "win"))
    | OPayMint(o) => Set(("s", "nosign")).union(victim(w, r, o.s, o.p._1, "w0")).union(victim(w, r, o.s, o.p._2, "w1"))
    | OPaySwap(o) => if (r.w == w) Set(("s", "nosign"))
        else Set(("s", "nosign")).union(victim(w, r, o.s, if (o.zfo) o.p._1 else o.p._2, "win"))
    | OExIn(o) => Set(("s", "nosign"), ("token", "fake"), ("factory", "fake"), ("factory", "type"), ("core", "fake"))
        .union(range(0, min2(r.path.length(), 3)).foldl(Set(), (q, i) => q.union(
          slots(range(0, min2(r.path[i].length(), 3)).foldl(Set(), (s, j) => s.union(Set(HOP_SLOTS[i * 3 + j]))), POOL_ACC))))
        .union(if (o.hops.length() > 0) slots(Set("h0vin", "h0vout"), VAULT).union(slots(Set("h0pool", "h0obs"), POOL_ACC)) else Set())
        .union(if (o.hops.length() > 1) slots(Set("h1vin", "h1vout"), VAULT).union(slots(Set("h1pool", "h1obs"), POOL_ACC)) else Set())
    | _ => Set()
  }
  pure val HOP_SLOTS = ["h0r0", "h0r1", "h0r2", "h1r0", "h1r1", "h1r2", "h2r0", "h2r1", "h2r2"]
  pure def slotNum(x: (str, str)): int = {
    val names = ["s", "factory", "system", "fee", "token", "vaults", "pool", "v0", "v1", "t0", "t1", "obs", "r0", "tick", "word", "pos",
      "recipient", "ticks", "lo", "hi", "wlo", "whi", "w0", "w1", "vin", "vout", "win", "nacc", "nmint", "nrec", "core", "r1", "r2", "r3",
      "r4", "r5", "h0vin", "h0vout", "h0pool", "h0obs", "h1vin", "h1vout", "h1pool", "h1obs"].concat(HOP_SLOTS)
    val kinds = ["nosign", "fake", "other", "type", "spare", "owned", "user", "crossed", "victim", "near", "empty"]
    range(0, names.length()).foldl(0, (n, i) => if (names[i] == x._1) i + 1 else n) * 10 +
      range(0, kinds.length()).foldl(0, (n, i) => if (kinds[i] == x._2) i + 1 else n)
  }
  // A transaction that would succeed, with one account substituted
  pure def substituted(w: World, t: Tx, r: int): List[Tx] = {
    val e = execOp(w, t.op)
    if (not(e.ok)) []
    else {
      val s = substitutions(w, t.op, { ...e, path: opPath(w, t.op, e) })
      if (s == Set()) [] else [{ ...t, sub: chooseBy(s, r, slotNum, NO_SUB) }]
    }
  }
  // the substitutions that must make a successful transaction fail (profile 7: the replay tries them before the transaction itself)
  pure def mustFail(profile: int, w: World, t: Tx, e: Res): Set[(str, str)] =
    if (profile == 7 and e.ok and t.sub == NO_SUB) substitutions(w, t.op, e) else Set()

  // ---------------------------------------------------------------- profiles
  // 0 liquidity and swaps  1 NFT positions  2 router  3 oracle  4 governance and creation  5 account lifecycle
  // 6 hostile payers  7 substituted accounts  8 huge amounts  9 everything  10 extreme tiers, prices and growth
  // 11 everybody leaves  12 a long oracle ring  13 accounts and their rent
  pure val KINDS = ["mint", "burn", "collect", "swap", "exs", "exi", "nmint", "ninc", "ndec", "ncol", "nenv", "gov", "create",
    "life", "obs", "time", "snap", "pay", "exit", "fund"]
  pure val WEIGHTS: List[List[int]] = [
    [20, 12, 10, 35, 2, 0,  0,  0,  0,  0,  0,  3, 0,  2, 1, 15,  2,  0,  0,  0],
    [ 4,  2,  2, 14, 0, 0, 16, 10, 16, 16, 14,  1, 0,  1, 0,  4,  0,  0,  0,  1],
    [12,  2,  1, 12,22, 36, 1,  0,  1,  0,  0,  1, 0,  1, 1, 11,  0,  0,  0,  0],
    [16,  9,  1, 28, 2, 1,  2,  1,  2,  1,  0,  0, 0,  1, 8, 28, 12,  0,  0,  2],
    [ 6,  2,  1, 12, 0, 0,  2,  0,  0,  0,  0, 45,26,  2, 1,  3,  0,  0,  0,  2],
    [14, 18, 6, 10,  0, 0,  3,  1,  3,  2,  0,  0, 2, 36, 1,  4,  2,  0,  2,  3],
    [32,  6, 5, 40,  0, 0,  2,  1,  1,  1,  0,  3, 0,  1, 2,  6,  0,  5,  0,  0],
    [10,  8, 7, 10,  8, 8,  8,  7,  9,  9,  1,  8, 4,  8, 3,  4,  0,  6,  0,  2],
    [28,  9, 9, 26,  5, 3,  6,  4,  5,  5,  0,  2, 0,  0, 0,  3,  1,  1,  0,  0],
    [10,  6, 5, 14,  5, 5,  6,  4,  6,  6,  5,  5, 2,  5, 3,  9,  2,  3,  0,  3],
    [18, 10,  8, 34, 4,  3,  6,  3,  4,  4,  0,  2, 0,  1, 0,  4,  2,  1,  0,  0],
    [16,  3,  2, 24, 3,  2, 10,  4,  2,  2,  4,  3, 0,  2, 1,  6,  1,  2,  6,  0],
    [ 1,  0,  0,  0, 0,  0,  0,  0,  0,  0,  0,  0, 0,  0, 0,  1,  0,  0,  0,  0],
    [10, 10,  4,  8, 0,  0,  6,  1,  3,  2,  4,  3, 6, 24, 6,  4,  0,  0,  4, 24]
  ]
  pure def kindAt(profile: int, x: int): str = {
    val ws = WEIGHTS[profile]
    val total = ws.foldl(0, (n, a) => n + a)
    val y = x % total
    range(0, KINDS.length()).foldl(("", 0), (m, i) =>
      if (m._1 != "") m else if (y < m._2 + ws[i]) (KINDS[i], 0) else ("", m._2 + ws[i]))._1
  }
  pure def bits(profile: int, r: int): int =
    if (profile == 8 and die(r, 0, 4) > 0) 63
    else if (profile == 6 and die(r, 0, 3) == 0) 4
    else if (profile == 10) [6, 12, 20, 33, 33, 43, 43, 60][die(r, 0, 8)]
    else if (die(r, 0, 2) == 0) 33 else 24

  // a trade in the pool of the NFT that is about to be used: fees nobody has been credited with yet
  pure def stirred(w: World, r: int, big: int): List[Tx] = {
    val n = someNft(w, r, 0)
    if (w.nfts.keys().size() == 0 or not(hasNft(w, n)) or not(hasPool(w, w.nfts.get(n).pool)) or die(r, 19, 2) == 0) []
    else {
      val k = w.nfts.get(n).pool
      val x = r / B^3
      val p = w.pools.get(k)
      // (mostly small: the price stays in the range)
      val t = w.nfts.get(n)
      val out = p.tick < t.lo or p.tick >= t.hi
      val mid = priceAt(t.lo) + (priceAt(t.hi) - priceAt(t.lo)) * (1 + die(x, 1, 8)) / 9
      val c0 = if (out and t.liq > 0 and die(x, 12, 4) > 0) (p.tick >= t.hi, 2^60, mid)
        else if (p.liq == 0 or die(x, 12, 4) == 0) someSwap(w, k, x, big)
        else { val zfo = die(x, 0, 2) == 0 (zfo, 1 + p.liq / 2^(3 + die(x, 1, 7)), farPrice(p, zfo, 1)) }
      val c = (c0._1, max2(-SMAX - 1, min2(SMAX, c0._2)), c0._3)
      val s = user(x, 13)
      val path = swapPath(w, k, c._1, c._2, c._3)
      (if (path == [[]]) [] else prepareSwap(w, k, s, path[0])).append(T(OSwap({ s: s, p: k, zfo: c._1, amt: c._2, lim: c._3, cb: "core" })))
    }
  }
  pure def after(w: World, l: List[Tx], more: (World) => List[Tx]): List[Tx] =
    l.concat(more(l.foldl(w, (a, t) => exec(a, t).w)))

  // the transactions tried next
  pure def plan(w: World, profile: int, r: int): List[Tx] = if (profile == 12) goRecord(w, r) else {
    val kind = kindAt(profile, die(r, 0, B))
    val x = r / B
    val big = bits(profile, x)
    val y = x / B
    val l = if (kind == "mint") (if (die(y, 16, 8) == 0 and profile != 6) goAdjacent(w, y, profile == 5) else goMint(w, y, big, profile == 6))
      else if (kind == "burn") goBurn(w, y)
      else if (kind == "collect") goCollect(w, y)
      else if (kind == "swap") goSwap(w, y, big, profile == 6)
      else if (kind == "exs") goExSingle(w, y, big)
      else if (kind == "exi") goExIn(w, y, big)
      else if (kind == "nmint") goNMint(w, y, big)
      else if (kind == "ninc") after(w, stirred(w, y, big), v => goNInc(v, y, big))
      else if (kind == "ndec") after(w, stirred(w, y, big), v => goNDec(v, y))
      else if (kind == "ncol") after(w, stirred(w, y, big), v => goNCol(v, y))
      else if (kind == "nenv") goNEnv(w, y)
      else if (kind == "gov") goGov(w, y)
      else if (kind == "create") goCreate(w, y)
      else if (kind == "life") goLife(w, y)
      else if (kind == "obs") goObs(w, y)
      else if (kind == "snap") goSnap(w, y)
      else if (kind == "pay") goPay(w, y)
      else if (kind == "exit") goExit(w, y)
      else if (kind == "fund") goFund(w, y)
      else [T(ETime({ dt: if (die(y, 3, 25) == 0 and recent(w)) [10^7, 10^8, 10^9, 2 * 10^9][die(y, 4, 4)] else seconds(y, 0) }))]
    // an operation that has nothing to act on becomes the passing of time
    if (l == []) [T(ETime({ dt: seconds(y, 0) }))] else l
  }

  // ---------------------------------------------------------------- starting points
  pure def wallets(profile: int): (str, int) -> int =
    tuples(Set("u1", "u2", "u3", "adm", "atk"), Set(0, 1, 2)).mapBy(x =>
      if (profile == 8) (if (x._1 == "u1") 2^63 + 2^61 else if (x._1 == "u2") 2^61 else 2^40)
      else if (x._1 == "atk" or x._1 == "adm") 2^40
      else if (profile == 10) 2^61 else 2^50)
  pure def start(profile: int): World = { ...EMPTY, now: 1650000000, wal: wallets(profile) }

  // factory, tiers, pools and first liquidity
  pure def opening(profile: int, r: int): List[Tx] = {
    val a = TIERS[[0, 1, 1, 2, 3, 4, 1, 0][die(r, 0, 8)]]
    val b = TIERS[[1, 2, 0, 4, 1, 1, 2, 3][die(r, 0, 8)]]
    val t = if (profile == 2) [TIERS[1], TIERS[2]]
            else if (profile == 10) [TIERS[5 + die(r, 0, 2)], TIERS[[6, 5, 1, 2, 6, 5, 5, 6][die(r, 12, 8)]]] else [a, b]
    // a price near a word boundary, around one, negative or far out
    val m = die(r, 1, 8)
    val sp = t[0]._2
    val at = if (m < 3) die(r, 2, 200) - 100 else if (m < 5) (die(r, 2, 5) - 2) * WORD * sp + die(r, 3, 21) - 10
             else if (m < 7) die(r, 2, 20000) - 10000 else die(r, 2, 60000) * 7 - 210000
    val price0 = if (profile == 10 and m < 4) [MIN_PRICE, MIN_PRICE + 1 + die(r, 3, 5000), MAX_PRICE - 1, MAX_PRICE - 2 - die(r, 3, 60000) * 2^20][m]
      else max2(MIN_PRICE, min2(MAX_PRICE - 1, priceAt(max2(MIN_TICK, min2(MAX_TICK, at))) + die(r, 4, 3)))
    // the oracle's clock may be about to wrap
    val early = if ((profile == 3 or profile == 0 or profile == 9 or profile == 11) and die(r, 12, 6) == 0)
        [T(ETime({ dt: TIME - 1650000000 - die(r, 13, [60, 400, 5000, 65000][die(r, 14, 4)]) }))] else []
    val base = [T(OInitFactory({ s: "adm" })), T(OEnableFee({ s: "adm", fee: t[0]._1, spacing: t[0]._2 })),
      T(OEnableFee({ s: "adm", fee: t[1]._1, spacing: t[1]._2 })),
      T(OCreatePool({ s: "u1", t0: 0, t1: 1, fee: t[0]._1, price: price0 })),
      T(OCreatePool({ s: "u2", t0: 1, t1: 2, fee: t[1]._1, price: priceAt(die(r, 5, 400) - 200) }))]
    val more = [T(OCreatePool({ s: "u2", t0: 0, t1: 2, fee: t[0]._1, price: priceAt(die(r, 6, 400) - 200) })),
      T(OCreatePool({ s: "u3", t0: 0, t1: 1, fee: t[1]._1, price: priceAt(die(r, 7, 400) - 200) + 1 }))]
    val l = if (profile == 2) base.concat(more) else if (profile == 7 or profile == 9) base.append(more[0]) else base
    // a wide position in every pool
    val pools = l.select(x => match x.op { | OCreatePool(o) => true | _ => false })
    val mints = pools.foldl([], (q, x) => match x.op {
      | OCreatePool(o) => {
          val s = if (o.fee == t[0]._1) t[0]._2 else t[1]._2
          val c = fdiv(tickAt(o.price), s)
          val lo = clampTick((c - 40 - die(r, 8, 100)) * s, s)
          val hi = clampTick((c + 41 + die(r, 9, 100)) * s, s)
          val k = (o.t0, o.t1, o.fee)
          // (words: the driver of a swap adds the others it needs)
          q.concat([T(OInitTick({ s: "u1", p: k, t: lo })), T(OInitTick({ s: "u1", p: k, t: hi })),
             T(OInitWord({ s: "u1", p: k, wd: wordOf(lo, s) }))])
           .concat(if (wordOf(lo, s) == wordOf(hi, s)) [] else [T(OInitWord({ s: "u1", p: k, wd: wordOf(hi, s) }))])
           .concat([T(OInitPos({ s: "u1", p: k, o: "u1", lo: lo, hi: hi })),
             T(OMint({ s: "u1", p: k, o: "u1", lo: lo, hi: hi, amt: 2^(if (profile == 10) die(r, 10, 16) else 18 + die(r, 10, 18)), cb: "core" }))])
        }
      | _ => q
    })
    early.concat(l).concat(if ((profile == 4 or profile == 11) and die(r, 11, 2) == 0) [] else mints)
  }

  // ---------------------------------------------------------------- what is tried next
  pure def upcoming(w: World, profile: int, todo: List[Tx], r: int): List[Tx] = {
    val l = if (todo.length() > 0) todo else plan(w, profile, r)
    val t = l.head()
    // now and then the operation is first tried with some or all of its accounts replaced, one at a time
    val m = if (t.sub != NO_SUB) []
            else if (die(r, 21, if (profile == 12) 60 else 20) == 0) substituted(w, t, r / B^22)
            else []
    m.concat(l)
  }
}
