// State machine of scalar-field elements: four registers of residues modulo R
// and every exported operation on them. Operations that have no result (inverse
// of zero, root of a non-residue, element from a number not below R) return 0 in `r`.
module m_fr {
  import params.* from "./params"
  import num.* from "./num"
  import pools.* from "./pools"

  type Event = { op: str, i: List[int], r: List[int] }
  var reg: List[int]
  var ev: Event

  pure val RINV = invmod(RADR, R)
  pure val BITS = Set(0, 1, 2, 3, 31, 32, 33, 63, 64, 65, 127, 128, 191, 192, 223, 253, 254, 255)
  pure def b2i(b: bool): int = if (b) 1 else 0
  pure def cmp(a: int, b: int): int = if (a < b) -1 else if (a > b) 1 else 0
  pure def legendre(a: int): int = {
    val t = powmod(a, (R - 1) / 2, R)
    if (t == 0) 0 else if (t == 1) 1 else 2
  }
  pure def lsbFirst(bs: List[int]): int =
    bs.foldl(0, (acc, b) => digits(b, 1, 8).foldl(acc, (a, d) => 2 * a + d))

  action emit(o: str, ins: List[int], res: List[int]): bool =
    all { reg' = reg, ev' = { op: o, i: ins, r: res } }
  action write(d: int, v: int, o: str, ins: List[int], res: List[int]): bool =
    all { reg' = reg.replaceAt(d, v), ev' = { op: o, i: ins, r: res } }

  action init = all { reg' = [0, 1, R - 1, 2], ev' = { op: "init", i: [], r: [] } }

  action step = {
    nondet d = 0.to(3).oneOf()
    nondet s = 0.to(3).oneOf()
    nondet kind = KINDS.oneOf()
    nondet k0 = 0.to(8).oneOf()
    nondet c0 = COARSE.oneOf()
    nondet c1 = COARSE.oneOf()
    nondet c2 = COARSE.oneOf()
    nondet e0 = WORDS.oneOf()
    nondet e1 = WORDS.oneOf()
    nondet tp = TOPR.oneOf()
    nondet u = 0.to(R - 1).oneOf()
    nondet perm = 0.to(5).oneOf()
    nondet dl = 0.to(4).oneOf()
    nondet bt = BITS.oneOf()
    nondet ord2 = 0.to(32).oneOf()
    nondet op = 0.to(33).oneOf()
    val rw = wordOf(k0, c1, e1, u % B64)
    val limbs = if (perm == 0) [c0, e0, rw, tp] else if (perm == 1) [rw, c0, c1, tp]
      else if (perm == 2) [c0, c0, c0, tp] else if (perm == 3) [e0, rw, e1, tp]
      else if (perm == 4) [c2, rw, c0, tp] else [c0, c1, c0, tp]
    val raw = pack(limbs) % R
    val x = reg[s]
    val y = reg[d]
    val v = element(kind, R, RINV, raw, u, x, dl)
    val full = if (kind < 6) pack(limbs) else if (kind < 9) R + dl - 2 else if (kind < 12) 2^256 - 1 - dl else if (kind < 16) pack(limbs) % 2^192 + c0 * 2^192 else u
    val n = if (kind < 6) pack(limbs) else if (kind < 10) 2^bt else if (kind < 12) 2^bt - 1 + dl else if (kind < 15) dl else u
    if (op < 7) write(d, v, "set", [d, v], [])
    else if (op <= 9) (if (full < R) write(d, full, "fromRepr", [d, full], [1]) else emit("fromRepr", [d, full], [0]))
    else if (op <= 11) write(d, (y + x) % R, "add", [d, s], [])
    else if (op <= 13) write(d, md(y - x, R), "sub", [d, s], [])
    else if (op <= 16) write(d, (y * x) % R, "mul", [d, s], [])
    else if (op <= 18) write(d, (y * y) % R, "square", [d], [])
    else if (op == 19) write(d, (2 * y) % R, "double", [d], [])
    else if (op == 20) write(d, md(-y, R), "neg", [d], [])
    else if (op <= 22) (if (x == 0) emit("inverse", [d, s], [0]) else write(d, invmod(x, R), "inverse", [d, s], [1]))
    else if (op == 23) write(d, powmod(x, n, R), "exp", [d, s, n], [])
    else if (op == 24) write(d, x * n % R, "mulBits", [d, s, n], [])
    else if (op == 25) {
      val bs = if (dl == 4) toBytes(n, 32).concat(toBytes(x, 32)) else if (dl == 0 and n % 4 == 0) [] else toBytes(n, 32).slice(31 - dl * 7, 32)
      write(d, x * lsbFirst(bs) % R, "mulBytes", [d, s].concat(bs), [])
    }
    else if (op <= 27) emit("observe", [d, s], [b2i(y == x), cmp(y, x), b2i(y == 0), b2i(y > md(-y, R))])
    else if (op == 28) write(d, x, "copy", [d, s], [])
    else if (op == 29) emit("bytes", [d], toBytes(y, 32))
    else if (op == 30) emit("legendre", [s], [legendre(x)])
    // the root of a square (of value, of a power of two order element) or of 7 times a square, 7 being a non-residue
    else {
      // v^(t) has order dividing 2^32: exercises the longest chains
      val base = if (bt < 40) powmod(v, (R - 1) / 2^32 * 2^ord2, R) else v
      if (op <= 32 or base == 0) write(d, base * base % R, "sqrtOfSquare", [d, base * base % R], [1])
      else write(d, 7 * base * base % R, "sqrtOfSquare", [d, 7 * base * base % R], [0])
    }
  }

  val inv = and {
    reg.indices().forall(i => reg[i] >= 0 and reg[i] < R),
    legendre(7) == 2,
  }
}
