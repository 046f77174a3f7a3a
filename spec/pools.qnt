// Input classes shared by all machines: the machine words and integers that
// exercise carries, borrows and reductions, which uniform sampling never meets.
module pools {
  import params.* from "./params"
  import num.* from "./num"

  // 64-bit words: word-size boundaries and the limbs of the two moduli
  pure val WORDS: Set[int] = Set(0, 1, 2, 2^31, 2^32 - 1, 2^32, 2^32 + 1, 2^63 - 1, 2^63, 2^63 + 1,
    2^64 - 2, 2^64 - 1, Q % 2^64, (Q / 2^64) % 2^64, (Q / 2^128) % 2^64, (Q / 2^192) % 2^64,
    (Q / 2^256) % 2^64, Q / 2^320, R % 2^64, (R / 2^64) % 2^64, (R / 2^128) % 2^64, R / 2^192,
    9940570264628428797, 18446744069414584319, 9940570264628428797 - 1, 5)
  // the coarse classes, chosen more often
  pure val COARSE: Set[int] = Set(0, 1, 2^63, 2^64 - 1, 2^32 - 1)
  // most significant limbs that keep a pattern below the moduli
  pure val TOPQ: Set[int] = Set(0, 1, 2^32 - 1, 2^32, 2^60 - 1, Q / 2^320 - 1, Q / 2^320, 2^60)
  pure val TOPR: Set[int] = Set(0, 1, 2^32 - 1, 2^32, 2^62 - 1, R / 2^192 - 1, R / 2^192, 2^62)

  // a word of the class chosen by k: coarse class, boundary word, or uniform
  pure def wordOf(k: int, coarse: int, edge: int, unif: int): int =
    if (k < 4) coarse else if (k < 7) edge else unif

  pure def pack(ws: List[int]): int = undigits(ws, 64)

  // ---- field elements ----
  // Interesting elements of the prime field of order p whose implementation works with the Montgomery
  // radix `rad` (rinv = 1/rad mod p). `raw` is a limb pattern below p, x the
  // value of another live element (so that sums, differences and products meet boundary values).
  pure def element(kind: int, p: int, rinv: int, raw: int, u: int, x: int, dl: int): int =
    if (kind < 3) u
    else if (kind < 7) md(raw * rinv, p)            // Montgomery form is the pattern
    else if (kind == 7) raw % p                     // integer is the pattern
    else if (kind == 8) dl                          // 0, 1, 2, ...
    else if (kind == 9) p - 1 - dl                  // -1, -2, ...
    else if (kind == 10) md((p + 1) / 2 - 2 + dl, p) // around (p-1)/2, the parity threshold
    else if (kind == 11) md(-x + dl - 1, p)         // sum at or next to the modulus
    else if (kind == 12) md(raw * rinv - x, p)      // Montgomery form of the sum is the pattern
    else if (kind == 13) md(x - raw * rinv, p)      // ... of the difference
    else if (kind == 14) md(raw * rinv % p * invmod(x, p), p) // ... of the product
    else if (kind == 15) md(dl * rinv, p)           // Montgomery form 0, 1, 2, ...
    else if (kind == 16) md(-(1 + dl) * rinv, p)    // Montgomery form p-1, p-2, ...
    else if (kind == 17) md(((p - 1) / 2 + dl) * rinv, p) // doubling wraps or not
    else if (kind == 18) x
    else if (kind == 19) md(x + dl - 1, p)
    else if (kind == 20) md(x + 2^(64 * (if (p == Q) u % 6 else u % 4)) * rinv, p) // representation differs from x's in one limb only
    else md(x + (1 + dl) * 2^(u % 256) * rinv, p)   // ... in a few bits only
  pure val KINDS = 0.to(21)
}
