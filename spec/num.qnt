// Integers: the few number-theoretic operators every other module builds on.
module num {
  pure def min(a: int, b: int): int = if (a < b) a else b
  pure def max(a: int, b: int): int = if (a < b) b else a

  // floor modulus (Quint's % truncates like JavaScript's)
  pure def md(a: int, m: int): int = { val t = a % m  if (t < 0) t + m else t }

  // 2^k for k >= 0
  pure def pow2(k: int): int = 2^k

  // number of significant bits of n >= 0 (up to 4096 bits)
  pure def bitlen(n: int): int =
    [2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1].foldl((n, 0), (s, k) =>
      if (s._1 >= 2^k) (s._1 / 2^k, s._2 + k) else s)._2 + (if (n > 0) 1 else 0)

  // bit i of n >= 0
  pure def bit(n: int, i: int): bool = (n / 2^i) % 2 == 1

  // b^e mod m, e >= 0
  pure def powmod(b: int, e: int, m: int): int =
    range(0, bitlen(e)).foldl((e, md(b, m), 1 % m), (s, _i) =>
      (s._1 / 2, s._2 * s._2 % m, if (s._1 % 2 == 1) s._3 * s._2 % m else s._3))._3

  // inverse modulo a prime (0 for 0)
  pure def invmod(a: int, p: int): int = powmod(a, p - 2, p)

  // n as `len` digits in base 2^w, least significant first
  pure def digits(n: int, w: int, len: int): List[int] =
    range(0, len).foldl((n, []), (s, _z) => (s._1 / 2^w, s._2.append(s._1 % 2^w)))._2

  // digits (least significant first) in base 2^w as a number
  pure def undigits(ds: List[int], w: int): int =
    range(0, length(ds)).foldl(0, (acc, i) => acc * 2^w + ds[length(ds) - 1 - i])

  // n as `len` bytes, most significant first, and back
  pure def toBytes(n: int, len: int): List[int] =
    range(0, len).foldl((n, []), (s, _i) => (s._1 / 256, [s._1 % 256].concat(s._2)))._2
  pure def fromBytes(bs: List[int]): int = bs.foldl(0, (acc, b) => acc * 256 + b)

  pure def sum(l: List[int]): int = l.foldl(0, (a, b) => a + b)
}
