// Point encodings. Compressed: big-endian x (highest coefficient first), three flag bits on top:
// compressed, infinity, greater y. Uncompressed: x then y, lowest coefficient first.
module codec {
  import params.* from "./params"
  import num.* from "./num"
  import curveOver(P = Q).* from "./curve"
  import curve.* from "./curve"

  pure def bOf(deg: int): List[int] = if (deg == 1) B1 else B2
  pure def zeros(n: int): List[int] = range(0, n).foldl([], (l, _i) => l.append(0))

  pure def compress(p: List[int], deg: int): List[int] =
    if (p == []) zeros(48 * deg).replaceAt(0, 192)
    else {
      val raw = if (deg == 1) toBytes(p[0], 48) else toBytes(p[1], 48).concat(toBytes(p[0], 48))
      raw.replaceAt(0, raw[0] + 128 + (if (fgreater(py(p))) 32 else 0))
    }

  // (accepted, point)
  pure def decompress(bs: List[int], deg: int): (bool, List[int]) = {
    val f = bs[0]
    if (f < 128) (false, [])
    else if (f / 64 % 2 == 1) (f == 192 and bs.indices().forall(i => i == 0 or bs[i] == 0), [])
    else {
      val hi = fromBytes(bs.slice(0, 48)) % 2^381
      val x = if (deg == 1) [hi] else [fromBytes(bs.slice(48, 96)), hi]
      if (not(x.indices().forall(i => x[i] < Q))) (false, [])
      else { val p = lift(x, bOf(deg), f / 32 % 2 == 1)  (p != [], p) }
    }
  }

  pure def inSubgroup(p: List[int]): bool = pmul(p, R) == []

  // uncompressed; the identity is written as the coordinates (0, 1)
  pure def raw(p: List[int], deg: int): List[int] = {
    val c = if (p != []) p else if (deg == 1) [0, 1] else [0, 0, 1, 0]
    c.foldl([], (l, x) => l.concat(toBytes(x, 48)))
  }
}
