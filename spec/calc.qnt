// Tables of the calculations behind swaps, deposits, positions, ticks and observations, at inputs where their
// roundings and bounds matter: exact quotients, quotients just below or above an integer, powers of two, the
// ends of every range.
module calc {
  import numerics.* from "./numerics"
  import clmm.* from "./clmm"

  pure val CHUNK = 40
  // what: which calculation; arg: its inputs; res: its results (none if the calculation must be refused)
  type Row = { what: str, arg: List[int], res: List[int] }
  var rows: List[Row]

  // ---------------------------------------------------------------- numbers
  pure val P127 = 2^127 - 1
  // the i-th number below 2^96 derived from s
  pure def mix(s: int, i: int): int = {
    val x = (s + (i + 1) * 0x9E3779B97F4A7C15F39CC0605CEDC835) % P127
    val y = (x * x) % P127
    val z = (y * x + 0xDA942042E4DD58B5) % P127
    ((z * z) % P127) % 2^96
  }
  // at most n bits, of any magnitude, often a round number or next to one
  pure def num(r: int, n: int): int = {
    val b = (r / 16) % n
    val x = r / 2^24
    val shape = r % 16
    val v = if (shape < 7) x % 2^(b + 1)
      else if (shape < 9) 2^b
      else if (shape == 9) 2^b - 1
      else if (shape == 10) 2^b + 1
      else if (shape == 11) (1 + x % 12) * 2^b
      else if (shape == 12) x % 20
      else if (shape == 13) (2^n - 1) - x % 4
      else if (shape == 14) (1 + x % 1000) * 1000000
      else x % 2^n
    v % 2^n
  }
  pure def between(r: int, lo: int, hi: int): int = lo + r % (hi - lo + 1)
  pure def clamp(x: int, lo: int, hi: int): int = max2(lo, min2(hi, x))
  pure def someTick(r: int): int = {
    val x = r / 16
    val s = r % 16
    if (s < 6) between(x, MIN_TICK, MAX_TICK)
    else if (s < 12) between(x, -2000, 2000)
    else if (s == 12) MIN_TICK + x % 20
    else if (s == 13) MAX_TICK - x % 20
    else if (s == 14) between(x, -20, 20)
    else between(x, -222000, -100000)
  }
  pure def somePrice(r: int): int = {
    val x = r / 16
    val s = r % 16
    val t = clamp(someTick(x), MIN_TICK, MAX_TICK)
    clamp(if (s < 5) priceAt(t)
      else if (s < 7) priceAt(t) + between(x / 16, -1, 1)
      else if (s < 9) 2^(17 + x % 31)
      else if (s < 11) 2^32
      else priceAt(t) + num(x / 16, 32), MIN_PRICE, MAX_PRICE)
  }
  pure def near(r: int, x: int): int = {
    val d = r % 8
    max2(0, x + (if (d == 0) 1 else if (d == 1) -1 else if (d == 2) 2 else 0))
  }
  pure def pickFee(r: int): int = {
    val l = [1, 100, 500, 3000, 10000, 30000, 500000, 999999, 0, 2500]
    if (r % 12 < 10) l[r % 12] else between(r / 12, 1, 999999)
  }
  // x with x * a = 1 modulo m, or 0
  pure def inverse(a: int, m: int): int = {
    val e = range(0, 150).foldl({ r: m, s: a % m, x: 0, y: 1 }, (k, i) =>
      if (k.s == 0) k
      else { val q = k.r / k.s
             { r: k.s, s: k.r - q * k.s, x: k.y, y: k.x - q * k.y } })
    if (e.r == 1) e.x - m * fdiv(e.x, m) else 0
  }
  // a liquidity for which the token-0 amount between two prices is barely below (or barely above) a whole number
  pure def sharp(r: int, a: int, b: int): int = {
    val m = a * b
    val i = inverse(Q * abs(b - a), m)
    val rest = if (r % 2 == 0) m - 1 - (r / 2) % max2(1, max2(a, b) - 1) else 1 + (r / 2) % max2(1, max2(a, b) - 1)
    ((rest % m) * i) % m
  }

  // ---------------------------------------------------------------- rows
  // (a row of "reference" or "credit" that must be refused is left out: who refuses it is up to the program)
  pure def row(w: str, a: List[int], ok: bool, r: List[int]): Row = { what: w, arg: a, res: if (ok) r else [] }

  pure def segment(s: int): Row = {
    val cur0 = somePrice(mix(s, 0))
    val zfo = mix(s, 1) % 2 == 0
    val gap = num(mix(s, 2), 47)
    val other = if (mix(s, 3) % 4 == 0) somePrice(mix(s, 4)) else if (zfo) cur0 - gap else cur0 + gap
    val t0 = clamp(other, MIN_PRICE, MAX_PRICE)
    // a price may stand one below the price of its own tick's lower bound, hence equal prices as well
    val cur = if (zfo) max2(cur0, t0) else min2(cur0, t0)
    val target = if (zfo) min2(cur0, t0) else max2(cur0, t0)
    val fee = pickFee(mix(s, 5))
    val how = mix(s, 6) % 16
    val l0 = if (how < 3 and cur != target) sharp(mix(s, 7), cur, target)
             else if (how < 5) num(mix(s, 7), 40) * (FEE_BASE - fee)
             else num(mix(s, 7), 64)
    val l = if (how == 15) 0 else clamp(l0, 1, WRAP - 1)
    val zero = cur >= target
    // a price on the way
    val mid = if (zero) cur - (mix(s, 8) % (cur - target + 1)) else cur + (mix(s, 8) % (target - cur + 1))
    val goal = if (mix(s, 9) % 2 == 0) target else mid
    val need = if (zero) amount0(goal, cur, l, true) else amount1(cur, goal, l, true)
    val give = if (zero) amount1(goal, cur, l, false) else amount0(cur, goal, l, false)
    val gross = if (mix(s, 10) % 2 == 0) cdiv(need * FEE_BASE, FEE_BASE - fee) else need + cdiv(need * fee, FEE_BASE - fee)
    val exactIn = mix(s, 11) % 2 == 0
    val amt = min2(SMAX, if (mix(s, 12) % 3 == 0) num(mix(s, 13), 63) else near(mix(s, 13), if (exactIn) gross else give))
    val rem = if (exactIn) amt else -max2(1, amt)
    val st = swapStep(cur, target, l, rem, fee)
    row("segment", [cur, target, l, rem, fee], st.ok, [st.price, st.in, st.out, st.fee])
  }
  pure def worth(s: int): Row = {
    val a = somePrice(mix(s, 0))
    val b0 = if (mix(s, 1) % 3 == 0) somePrice(mix(s, 2)) else clamp(a + num(mix(s, 2), 40), MIN_PRICE, MAX_PRICE)
    val b = if (b0 == a) a + 1 else b0
    val l = min2(SMAX, if (mix(s, 3) % 3 == 0) sharp(mix(s, 4), a, b) else num(mix(s, 4), 63))
    val up = mix(s, 5) % 2 == 0
    val token0 = mix(s, 6) % 3 > 0
    val x = if (token0) amount0(min2(a, b), max2(a, b), l, up) else amount1(min2(a, b), max2(a, b), l, up)
    // (the two prices come in either order)
    row(if (token0) "worth0" else "worth1", [a, b, l, if (up) 1 else 0], fits(x), [x])
  }
  pure def deposit(s: int): Row = {
    val t1 = someTick(mix(s, 0))
    val t2 = if (mix(s, 1) % 2 == 0) someTick(mix(s, 2)) else clamp(t1 + num(mix(s, 2), 12), MIN_TICK, MAX_TICK)
    val lo0 = min2(t1, t2)
    val hi0 = max2(t1, t2)
    val lo = if (lo0 == hi0 and hi0 == MAX_TICK) lo0 - 1 else lo0
    val hi = if (lo0 == hi0 and hi0 < MAX_TICK) hi0 + 1 else hi0
    val a = priceAt(lo)
    val b = priceAt(hi)
    val w = mix(s, 3) % 8
    val p = clamp(if (w == 0) a else if (w == 1) b else if (w == 2) a - 1 else if (w == 3) a + 1 else if (w == 4) b - 1
                  else if (w == 5) b + 1 else between(mix(s, 4), a, b), MIN_PRICE, MAX_PRICE)
    val l = num(mix(s, 5), 63)
    // desired amounts: anything, or what a liquidity is worth
    val kind = mix(s, 6) % 3
    val in0 = max2(p, a)
    val in1 = min2(p, b)
    val d0 = min2(WRAP - 1, if (kind > 0 and in0 < b) near(mix(s, 7), amount0(in0, b, l, true)) else num(mix(s, 7), 64))
    val d1 = min2(WRAP - 1, if (kind > 1 and a < in1) near(mix(s, 8), amount1(a, in1, l, true)) else num(mix(s, 8), 64))
    val r = liquidityFor(p, a, b, d0, d1)
    val turned = mix(s, 9) % 4 == 0
    row("deposit", [p, if (turned) b else a, if (turned) a else b, d0, d1], r._2, [r._1])
  }
  // what a liquidity is worth at a price, rounded down
  pure def redeem(s: int): Row = {
    val a0 = somePrice(mix(s, 0))
    val b0 = if (mix(s, 1) % 2 == 0) somePrice(mix(s, 2)) else clamp(a0 + num(mix(s, 2), 40), MIN_PRICE, MAX_PRICE)
    val a = min2(a0, b0)
    val b = if (a0 == b0) b0 + 1 else max2(a0, b0)
    val w = mix(s, 3) % 8
    val p = clamp(if (w == 0) a else if (w == 1) b else if (w == 2) a - 1 else if (w == 3) a + 1 else if (w == 4) b - 1
                  else if (w == 5) b + 1 else between(mix(s, 4), a, b), MIN_PRICE, MAX_PRICE)
    val l = if (mix(s, 5) % 3 == 0) sharp(mix(s, 6), a, b) % WRAP else num(mix(s, 6), 64)
    val x0 = amount0(clamp(p, a, b), b, l, false)
    val x1 = amount1(a, clamp(p, a, b), l, false)
    val turned = mix(s, 7) % 3 == 0
    row("redeem", [p, if (turned) b else a, if (turned) a else b, l], fits(x0) and fits(x1), [x0, x1])
  }
  // x * y / z, rounded down or up, in 64 or 128 bits
  pure def ratio(s: int): Row = {
    val n = if (mix(s, 0) % 2 == 0) 64 else 126
    val x = (num(mix(s, 1), n) + num(mix(s, 2), 40) * mix(s, 3) % 2^60) % 2^n
    val z = max2(1, (num(mix(s, 4), n) * (1 + mix(s, 5) % 3)) % 2^n)
    // a product next to a multiple of the divisor, or anything
    val y = if (mix(s, 6) % 2 == 0 or x == 0) num(mix(s, 7), n) else near(mix(s, 7), (z * num(mix(s, 8), n)) / x) % 2^n
    val up = mix(s, 9) % 2 == 0
    val q = if (up) cdiv(x * y, z) else (x * y) / z
    // (a result of more than 126 bits that fits in 128 is not written down)
    if (n == 126 and q >= 2^126 and q < 2^128) row("ratio", [64, 1, 1, 1, 0], true, [1])
    else row("ratio", [n, x, y, z, if (up) 1 else 0], q < (if (n == 64) WRAP else 2^128), [q])
  }
  pure def observation(s: int): Row = {
    val o = { ts: mix(s, 0) % TIME, tc: between(mix(s, 1), -2^60, 2^60), sp: num(mix(s, 2), 64), ini: true }
    val dt = num(mix(s, 3), 32)
    val t = someTick(mix(s, 4))
    val l = if (mix(s, 5) % 8 == 0) 0 else num(mix(s, 6), 64)
    val n = extend(o, o.ts + dt, t, l)
    row("observation", [o.ts, o.tc, o.sp, n.ts, t, l], true, [n.ts, n.tc, n.sp])
  }
  pure def bitmap(s: int): Row = {
    // up to six initialised ticks of a word
    val n = mix(s, 0) % 7
    val at = mix(s, 1) % WORD
    val bits = range(0, n).foldl(Set(), (b, i) => {
      val r = mix(s, 2 + i)
      b.union(Set(if (r % 4 == 0) at else if (r % 4 == 1) (at + WORD + (r / 4) % 5 - 2) % WORD
                  else if (r % 4 == 2) (if (r / 4 % 2 == 0) 0 else WORD - 1) else (r / 4) % WORD))
    })
    val left = mix(s, 12) % 2 == 0
    val found = if (left) bits.filter(b => b <= at) else bits.filter(b => b >= at)
    val bit = if (left) found.fold(0, (m, b) => max2(m, b)) else found.fold(WORD - 1, (m, b) => min2(m, b))
    row("bitmap", [at, if (left) 1 else 0].concat(bits.fold([], (l, b) => l.append(b))), true,
        [bit, if (found == Set()) 0 else 1])
  }
  pure def place(s: int): Row = {
    val c = if (mix(s, 0) % 2 == 0) between(mix(s, 1), -1000, 1000) else someTick(mix(s, 1))
    val w = fdiv(c, WORD)
    row("place", [c], true, [w, c - w * WORD])
  }
  pure def poolWith(tick: int, g0: int, g1: int): Pool = {
    sp: 1, price: 0, tick: tick, liq: 0, oi: 0, card: 0, cn: 0, g0: g0, g1: g1, p0: 0, p1: 0, v0: 0, v1: 0, unl: true,
    ticks: Map(), words: Set(), bits: Set(), pos: Map(), obs: Map()
  }
  pure def someTickState(s: int, empty: bool): Tick =
    if (empty) NO_TICK
    else { val g = 1 + num(mix(s, 50), 63)
           { gross: g, net: between(mix(s, 51), -g, g), f0: num(mix(s, 52), 64), f1: num(mix(s, 53), 64),
             tc: between(mix(s, 54), -2^60, 2^60), sp: num(mix(s, 55), 64), so: mix(s, 56) % TIME } }
  pure def flat(t: Tick): List[int] = [t.net, t.gross, t.f0, t.f1, t.tc, t.sp, t.so]
  pure def reference(s: int): Row = {
    val t = someTickState(s, mix(s, 0) % 2 == 0)
    val idx = someTick(mix(s, 1))
    val cur = if (mix(s, 2) % 2 == 0) idx + mix(s, 3) % 3 - 1 else someTick(mix(s, 3))
    val p = poolWith(cur, num(mix(s, 4), 64), num(mix(s, 5), 64))
    val o = { ts: mix(s, 6) % TIME, tc: between(mix(s, 7), -2^60, 2^60), sp: num(mix(s, 8), 64), ini: true }
    val d0 = num(mix(s, 9), 63)
    val d1 = if (mix(s, 10) % 3 == 0) -min2(SMAX, t.gross) else if (mix(s, 10) % 3 == 1) -d0 else d0
    val d = if (d1 == 0) 1 else d1
    val upper = mix(s, 11) % 2 == 0
    val n = touch(t, idx, p, d, upper, o)
    row("reference", flat(t).concat([idx, cur, d, p.g0, p.g1, o.sp, o.tc, o.ts, if (upper) 1 else 0]),
        validTick(n),
        flat(n).append(if ((n.gross == 0) != (t.gross == 0)) 1 else 0))
  }
  pure def crossing(s: int): Row = {
    val t = someTickState(s, mix(s, 0) % 8 == 0)
    val a = [num(mix(s, 1), 64), num(mix(s, 2), 64), num(mix(s, 3), 64), between(mix(s, 4), -2^60, 2^60), mix(s, 5) % TIME]
    row("crossing", flat(t).concat(a), true,
        [t.net, t.gross, wrap(a[0] - t.f0), wrap(a[1] - t.f1), a[3] - t.tc, wrap(a[2] - t.sp), clock(a[4] - t.so)])
  }
  pure def growth(s: int): Row = {
    val lo = someTickState(s, mix(s, 0) % 8 == 0)
    val hi = someTickState(s + 1, mix(s, 1) % 8 == 0)
    val lower = between(mix(s, 2), MIN_TICK, MAX_TICK - 1)
    val upper = if (mix(s, 3) % 2 == 0) lower + 1 else between(mix(s, 4), lower + 1, MAX_TICK)
    val w = mix(s, 5) % 6
    val cur = if (w == 0) lower else if (w == 1) upper else if (w == 2) lower - 1 else if (w == 3) upper - 1 else someTick(mix(s, 6))
    val g0 = num(mix(s, 7), 64)
    val g1 = num(mix(s, 8), 64)
    val f = feeInside(lo, hi, lower, upper, cur, g0, g1)
    row("growth", [lower, lo.f0, lo.f1, upper, hi.f0, hi.f1, cur, g0, g1], true, [f._1, f._2])
  }
  pure def credit(s: int): Row = {
    val q = { liq: if (mix(s, 0) % 6 == 0) 0 else num(mix(s, 1), 63), f0: num(mix(s, 2), 64), f1: num(mix(s, 3), 64),
              o0: num(mix(s, 4), 64), o1: num(mix(s, 5), 64) }
    // little growth, so that the fees can be represented
    val n = if (mix(s, 6) % 4 == 0) 64 else 34
    val g0 = wrap(q.f0 + num(mix(s, 7), n))
    val g1 = wrap(q.f1 + num(mix(s, 8), n))
    val k = mix(s, 9) % 4
    val d = if (k == 0) 0 else if (k == 1) -q.liq else if (k == 2) -num(mix(s, 10), 62) else num(mix(s, 10), 62)
    val c0 = accrued(g0, q.f0, q.liq)
    val c1 = accrued(g1, q.f1, q.liq)
    row("credit", [q.liq, q.f0, q.f1, q.o0, q.o1, d, g0, g1],
        (d != 0 or q.liq > 0) and fits(q.liq + d) and fits(c0) and fits(c1),
        [q.liq + d, g0, g1, wrap(q.o0 + c0), wrap(q.o1 + c1)])
  }
  pure def one(s: int): Row = {
    val k = mix(s, 99) % 23
    if (k < 8) segment(s) else if (k < 11) worth(s) else if (k < 13) deposit(s) else if (k == 13) observation(s)
    else if (k == 14) bitmap(s) else if (k == 15) place(s) else if (k == 16) reference(s) else if (k == 17) crossing(s)
    else if (k == 18) growth(s) else if (k == 19) credit(s) else if (k < 22) redeem(s) else ratio(s)
  }

  // ---------------------------------------------------------------- what every row must satisfy
  pure def sound(r: Row): bool =
    if (r.res.length() == 0) true
    else if (r.what == "segment") {
      val cur = r.arg[0]
      val target = r.arg[1]
      val l = r.arg[2]
      val rem = r.arg[3]
      val fee = r.arg[4]
      val p = r.res[0]
      val i = r.res[1]
      val o = r.res[2]
      val f = r.res[3]
      val lo = min2(cur, p)
      val hi = max2(cur, p)
      val zfo = cur >= target
      and {
        // the price moves towards the target and never past it
        if (zfo) target <= p and p <= cur else cur <= p and p <= target,
        // no more than asked for, and all of it unless the target is reached
        if (rem >= 0) i + f <= rem else o <= -rem,
        p == target or (if (rem >= 0) i + f == rem else o == -rem),
        // the pool never loses by rounding
        if (zfo) i * hi * lo >= l * Q * (hi - lo) else i * Q >= l * (hi - lo),
        if (zfo) o * Q <= l * (hi - lo) else o * hi * lo <= l * Q * (hi - lo),
        // the fee is at least its share of the input
        f * FEE_BASE >= (i + f) * fee
      }
    } else if (r.what == "deposit") {
      val a = min2(r.arg[1], r.arg[2])
      val b = max2(r.arg[1], r.arg[2])
      val p = clamp(r.arg[0], a, b)
      amount0(p, b, r.res[0], true) <= r.arg[3] and amount1(a, p, r.res[0], true) <= r.arg[4]
    } else true

  action init = rows' = []
  action step = {
    nondet r = 0.to(2^100).oneOf()
    rows' = range(0, CHUNK).foldl([], (l, i) => l.append(one(mix(r, 1000 + i))))
      .select(x => x.res.length() > 0 or (x.what != "reference" and x.what != "credit"))
  }
  val good = rows.select(r => not(sound(r))).length() == 0
}
