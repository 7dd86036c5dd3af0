// Numerics of the deployed program: Q32.32 prices, 64-bit counters, tick base sqrt(1.0001).
module numerics {
  pure val Q = 2^32                 // fixed-point one of prices and growth counters
  pure val WRAP = 2^64              // counters and token amounts are unsigned modulo this
  pure val SMAX = 2^63 - 1          // greatest signed amount
  pure val FEE_BASE = 1000000       // fees are in hundredths of a basis point
  pure val WORD = 256               // ticks per bitmap word
  pure val TIME = 2^32              // the oracle keeps seconds modulo this
  pure val PARTITION = 14           // seconds per oracle partition
  pure val MIN_TICK = -221818
  pure val MAX_TICK = 221818
  pure val MIN_PRICE = 65537
  pure val MAX_PRICE = 281472331703918
  pure val MAX_SPACING = 16384
  pure val MAX_SLOTS = 65535
  // how many loop rounds a swap may take (words + initialised ticks), as OUTER * INNER
  pure val SWAP_OUTER = 40
  pure val SWAP_INNER = 30
  // binary-search depth of tickAt
  pure val TICK_BITS = 19

  // 2^64 / 1.0001^(2^(i-1)), i = 0..17
  pure val MAGIC: List[int] = [
    0xfffcb933bd6fb800, 0xfff97272373d4000, 0xfff2e50f5f657000, 0xffe5caca7e10f000,
    0xffcb9843d60f7000, 0xff973b41fa98e800, 0xff2ea16466c9b000, 0xfe5dee046a9a3800,
    0xfcbe86c7900bb000, 0xf987a7253ac65800, 0xf3392b0822bb6000, 0xe7159475a2caf000,
    0xd097f3bdfd2f2000, 0xa9f746462d9f8000, 0x70d869a156f31c00, 0x31be135f97ed3200,
    0x9aa508b5b85a500,  0x5d6af8dedc582c ]

  // products for the low nine bits, so that a price needs at most nine multiplications
  pure val LOW: List[int] = range(0, 512).foldl([], (l, k) =>
    l.append(range(0, 9).foldl((2^64, k), (a, i) =>
      ((if (a._2 % 2 == 1) (if (a._1 == 2^64) MAGIC[i] else (a._1 * MAGIC[i]) / 2^64) else a._1),
       a._2 / 2))._1))
  pure val HIGH: List[int] = range(9, 18).foldl([], (l, i) => l.append(MAGIC[i]))

  // square root of 1.0001^t as Q32.32, rounded up
  pure def priceAt(t: int): int = {
    val a = if (t < 0) -t else t
    val r = HIGH.foldl((LOW[a % 512], a / 512), (s, m) =>
      if (s._2 == 0) s
      else ((if (s._2 % 2 == 1) (s._1 * m) / 2^64 else s._1), s._2 / 2))._1
    val x = if (t > 0) (2^128 - 1) / r else r
    (x + Q - 1) / Q
  }

  // greatest tick in [lo, hi] whose price does not exceed p (priceAt(lo) <= p is assumed)
  pure def tickAtIn(p: int, lo: int, hi: int): int =
    range(0, TICK_BITS).foldl((lo, hi), (s, i) =>
      if (s._1 >= s._2) s
      else {
        val m = s._1 + (s._2 - s._1 + 1) / 2
        if (priceAt(m) <= p) (m, s._2) else (s._1, m - 1)
      })._1
  pure def tickAt(p: int): int = tickAtIn(p, MIN_TICK, MAX_TICK)
}
