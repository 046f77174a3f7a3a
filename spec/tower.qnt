// The extension tower, defined independently of how the library computes in it:
// every level is the polynomial ring Fq[t] / (t^n - 2 t^(n/2) + 2), n = 2, 6, 12, where
// t^(n/2) = 1 + u is the non-residue. (t is 1+u, v, w for n = 2, 6, 12.)
// Elements are lists of n residues in the library's nesting order.
module tower {
  import params.* from "./params"
  import num.* from "./num"

  type El = List[int]

  // one coefficient slot of a packed polynomial is wide enough for 24 products
  pure val SLOT = 2^800
  pure val PW: List[int] = range(0, 24).foldl([], (l, i) => l.append(2^(800 * i)))
  // power of t that goes with the p-th pair of residues
  pure def kOf(n: int, p: int): int = if (n == 12) p / 3 + 2 * (p % 3) else p

  pure def zero(n: int): El = range(0, n).foldl([], (l, _i) => l.append(0))
  pure def one(n: int): El = zero(n).replaceAt(0, 1)

  // a polynomial as one integer: evaluation at 2^800
  pure def packed(x: El, n: int): int =
    range(0, n / 2).foldl(0, (acc, p) => {
      val k = kOf(n, p)
      acc + md(x[2 * p] - x[2 * p + 1], Q) * PW[k] + x[2 * p + 1] * PW[k + n / 2]
    })
  pure def mul(x: El, y: El): El = {
    val n = length(x)
    val h = n / 2
    val p = packed(x, n) * packed(y, n)
    range(0, h).foldl([], (l, i) => {
      val k = kOf(n, i)
      val c0 = p / PW[k] % SLOT
      val c1 = p / PW[k + h] % SLOT
      val c2 = p / PW[k + n] % SLOT
      val c3 = if (k < h - 1) p / PW[k + n + h] % SLOT else 0
      l.append(md(c0 + c1 - 2 * c3, Q)).append((c1 + 2 * c2 + 2 * c3) % Q)
    })
  }
  pure def add(x: El, y: El): El = range(0, length(x)).foldl([], (l, i) => l.append((x[i] + y[i]) % Q))
  pure def sub(x: El, y: El): El = range(0, length(x)).foldl([], (l, i) => l.append(md(x[i] - y[i], Q)))
  pure def neg(x: El): El = range(0, length(x)).foldl([], (l, i) => l.append(md(-x[i], Q)))
  pure def scale(x: El, c: int): El = range(0, length(x)).foldl([], (l, i) => l.append(x[i] * c % Q))
  pure def isZero(x: El): bool = x.indices().forall(i => x[i] == 0)

  pure def pow(x: El, e: int): El =
    range(0, bitlen(e)).foldl((e, x, one(length(x))), (s, _i) =>
      (s._1 / 2, if (s._1 > 1) mul(s._2, s._2) else s._2, if (s._1 % 2 == 1) mul(s._3, s._2) else s._3))._3

  // ---- degree 2, with the short formulas used everywhere else ----
  pure def mul2(x: El, y: El): El =
    [md(x[0] * y[0] - x[1] * y[1], Q), (x[0] * y[1] + x[1] * y[0]) % Q]
  pure def norm2(x: El): int = (x[0] * x[0] + x[1] * x[1]) % Q
  pure def inv2(x: El): El = {
    val d = invmod(norm2(x), Q)
    [x[0] * d % Q, md(-x[1] * d, Q)]
  }
  pure def pow2e(x: El, e: int): El =
    range(0, bitlen(e)).foldl((e, x, [1, 0]), (s, _i) =>
      (s._1 / 2, if (s._1 > 1) mul2(s._2, s._2) else s._2, if (s._1 % 2 == 1) mul2(s._3, s._2) else s._3))._3
  // order: u-coefficient first
  pure def cmp1(a: int, b: int): int = if (a < b) -1 else if (a > b) 1 else 0
  pure def cmp2(x: El, y: El): int = if (x[1] != y[1]) cmp1(x[1], y[1]) else cmp1(x[0], y[0])
  pure def greater2(x: El): bool = cmp2(x, neg(x)) > 0

  // ---- Frobenius: c t^k -> conj(c) t^(q k) = conj(c) (1+u)^(k (q-1)/h) t^k ----
  pure val GAMMA = pow2e([1, 1], (Q - 1) / 6)
  pure val GAMMAS: List[El] = range(0, 11).foldl([[1, 0]], (l, i) => l.append(mul2(l[i], GAMMA)))
  pure def frob1(x: El): El = {
    val n = length(x)
    range(0, n / 2).foldl([], (l, p) =>
      l.concat(mul2([x[2 * p], md(-x[2 * p + 1], Q)], GAMMAS[kOf(n, p) * (12 / n)])))
  }
  pure def frob(x: El, power: int): El = range(0, power % length(x)).foldl(x, (y, _i) => frob1(y))

  // inverse: product of the other conjugates, divided by the norm
  pure def invEl(x: El): El = {
    val others = range(1, length(x)).foldl((x, one(length(x))), (s, _i) => {
      val y = frob1(s._1)
      (y, mul(s._2, y))
    })._2
    scale(others, invmod(mul(others, x)[0], Q))
  }

  // embeddings of the sparse elements the pairing multiplies with
  pure def sparse6(c0: El, c1: El): El = c0.concat(c1).concat([0, 0])
  pure def sparse12(c0: El, c1: El, c4: El): El = c0.concat(c1).concat([0, 0, 0, 0]).concat(c4).concat([0, 0])
  pure val NONRES6: El = [0, 0, 1, 0, 0, 0] // v

  // ---- checks of the definitions themselves ----
  pure val SAMPLE12: El = range(0, 12).foldl([], (l, i) => l.append((Q / (3 * i + 7)) * (i + 2) % Q))
  run towerTest = all {
    assert(mul(one(12), SAMPLE12) == SAMPLE12),
    // u^2 = -1, v^3 = 1 + u, w^2 = v
    assert(mul([0, 1], [0, 1]) == [Q - 1, 0]),
    assert(mul(NONRES6, mul(NONRES6, NONRES6)) == [1, 1, 0, 0, 0, 0]),
    assert(mul(zero(12).replaceAt(6, 1), zero(12).replaceAt(6, 1)) == zero(12).replaceAt(2, 1)),
    // subrings and the short formulas agree
    assert(mul(SAMPLE12.slice(0, 6).concat(zero(6)), SAMPLE12.slice(6, 12).concat(zero(6))) == mul(SAMPLE12.slice(0, 6), SAMPLE12.slice(6, 12)).concat(zero(6))),
    assert(mul(SAMPLE12.slice(0, 2), SAMPLE12.slice(4, 6)) == mul2(SAMPLE12.slice(0, 2), SAMPLE12.slice(4, 6))),
    // Frobenius is the q-th power; inverses
    assert(frob1(SAMPLE12) == pow(SAMPLE12, Q)),
    assert(frob(SAMPLE12, 12) == SAMPLE12 and frob1(SAMPLE12.slice(0, 6)) == pow(SAMPLE12.slice(0, 6), Q)),
    assert(mul(invEl(SAMPLE12), SAMPLE12) == one(12)),
    assert(mul(invEl(SAMPLE12.slice(0, 6)), SAMPLE12.slice(0, 6)) == one(6)),
    assert(invEl(SAMPLE12.slice(0, 2)) == inv2(SAMPLE12.slice(0, 2))),
  }
}
