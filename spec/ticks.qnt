// The table of ticks and prices, walked in chunks: the price of every tick, and the tick of its price, of the
// price just below it and of a random price up to the next tick.
module ticks {
  import numerics.* from "./numerics"

  const FROM: int
  const LAST: int                    // this walk covers [FROM, LAST]
  pure val REJECTED = -1000000
  pure val CHUNK = 256
  // the exact value of 1.0001^t, scaled by ONE, is carried along from FROM
  pure val ONE = 2^400

  var at: int                        // next tick
  var prices: List[(int, int)]       // (tick, its price or REJECTED)
  var ticks: List[(int, int)]        // (price, its tick or REJECTED)
  var exact: int                     // 1.0001^(at) * ONE
  var good: bool

  pure def power(b: int, n: int): int =
    range(0, 20).foldl((ONE, b, n), (s, i) =>
      (if (s._3 % 2 == 1) (s._1 * s._2) / ONE else s._1, (s._2 * s._2) / ONE, s._3 / 2))._1
  pure def exactAt(t: int): int = {
    val u = power((ONE * 10001) / 10000, if (t < 0) -t else t)
    if (t < 0) (ONE * ONE) / u else u
  }
  // p is the square root of x = 1.0001^t * ONE, rounded up to the grid, to nine digits or better
  pure def close(p: int, x: int): bool = {
    val slack = 1000000000
    and {
      (p - 1) * (p - 1) * (slack - 2) * ONE <= x * Q * Q * slack,
      x * Q * Q * slack <= p * p * (slack + 2) * ONE
    }
  }
  type Row = { p: List[(int, int)], t: List[(int, int)], x: int, prev: int, ok: bool }

  action init = all {
    at' = FROM,
    // outside the bounds
    prices' = [MIN_TICK - 1, MAX_TICK + 1, MIN_TICK - 2, MAX_TICK + 77, -443636, 443636, -887272, 887272, -2^20, 2^20, -2^31, 2^31 - 1]
      .foldl([], (l, t) => l.append((t, REJECTED))),
    ticks' = [0, 1, MIN_PRICE - 1, MIN_PRICE - 2, 2^15, MAX_PRICE, MAX_PRICE + 1, 2 * MAX_PRICE, 2^48, 2^63 - 1, 2^63, 2^64 - 1]
      .foldl([], (l, p) => l.append((p, REJECTED))),
    exact' = exactAt(FROM), good' = true
  }
  // a chunk of the table; r chooses a price between consecutive ticks
  action step = {
    nondet r = 0.to(2^62).oneOf()
    val n = if (at + CHUNK > LAST + 1) LAST + 1 - at else CHUNK
    val rows = range(0, n).foldl({ p: [], t: [], x: exact, prev: if (at > MIN_TICK) priceAt(at - 1) else 0, ok: true }, (s, i) => {
      val t = at + i
      val p = priceAt(t)
      val above = if (t < MAX_TICK) priceAt(t + 1) else p
      val q = if (above > p) p + r % (above - p) else p
      { p: s.p.append((t, p)),
        t: s.t.append((p, if (t == MAX_TICK) REJECTED else t))
           .append((p - 1, if (t == MIN_TICK) REJECTED else t - 1)).append((q, if (t == MAX_TICK) REJECTED else t)),
        x: (s.x * 10001) / 10000, prev: p, ok: s.ok and p > s.prev and close(p, s.x) }
    })
    all {
      n > 0,
      at' = at + n,
      prices' = rows.p, ticks' = rows.t, exact' = rows.x,
      good' = rows.ok
    }
  }
}
