// State machine of base-field elements: four registers holding residues modulo
// Q, and every exported operation on them. `ev` is the observable call: its
// operands and the results it must return.
module m_fq {
  import params.* from "./params"
  import num.* from "./num"
  import pools.* from "./pools"

  type Event = { op: str, i: List[int], r: List[int] }
  var reg: List[int]
  var ev: Event

  pure val RINV = invmod(RADQ, Q)
  pure val BITS = Set(0, 1, 2, 3, 63, 64, 65, 127, 128, 191, 192, 255, 256, 319, 320, 380, 381, 383)

  pure def b2i(b: bool): int = if (b) 1 else 0
  pure def cmp(a: int, b: int): int = if (a < b) -1 else if (a > b) 1 else 0
  // 0 for zero, 1 for squares, 2 for non-squares
  pure def legendre(a: int): int = {
    val t = powmod(a, (Q - 1) / 2, Q)
    if (t == 0) 0 else if (t == 1) 1 else 2
  }
  // the number whose binary digits, most significant first, are the digits of the
  // bytes read from the first byte on, each byte from its low bit up
  pure def lsbFirst(bs: List[int]): int =
    bs.foldl(0, (acc, b) => digits(b, 1, 8).foldl(acc, (a, d) => 2 * a + d))

  action emit(o: str, ins: List[int], res: List[int]): bool =
    all { reg' = reg, ev' = { op: o, i: ins, r: res } }
  action write(d: int, v: int, o: str, ins: List[int], res: List[int]): bool =
    all { reg' = reg.replaceAt(d, v), ev' = { op: o, i: ins, r: res } }

  action init = all {
    reg' = [0, 1, Q - 1, 2],
    ev' = { op: "init", i: [], r: [] },
  }

  action step = {
    nondet d = 0.to(3).oneOf()
    nondet s = 0.to(3).oneOf()
    nondet kind = KINDS.oneOf()
    nondet k0 = 0.to(8).oneOf()
    nondet c0 = COARSE.oneOf()
    nondet c1 = COARSE.oneOf()
    nondet c2 = COARSE.oneOf()
    nondet e0 = WORDS.oneOf()
    nondet e1 = WORDS.oneOf()
    nondet tp = TOPQ.oneOf()
    nondet u = 0.to(Q - 1).oneOf()
    nondet perm = 0.to(5).oneOf()
    nondet dl = 0.to(4).oneOf()
    nondet bt = BITS.oneOf()
    nondet op = 0.to(29).oneOf()
    val rw = wordOf(k0, c1, e1, u % B64)
    val limbs = if (perm == 0) [c0, c1, c2, e0, rw, tp] else if (perm == 1) [rw, c0, c1, c2, c0, tp]
      else if (perm == 2) [c0, c0, c0, c0, c0, tp] else if (perm == 3) [e0, rw, e1, c0, c1, tp]
      else if (perm == 4) [c2, rw, c0, c1, e0, tp] else [c0, c1, c0, c1, c2, tp]
    val raw = pack(limbs) % Q
    val x = reg[s]
    val y = reg[d]
    val v = element(kind, Q, RINV, raw, u, x, dl)
    // exponents and multipliers: limb patterns of up to 384 bits, single bits, small numbers
    val n = if (kind < 6) pack(limbs) else if (kind < 10) 2^bt else if (kind < 12) 2^bt - 1 + dl else if (kind < 15) dl else u
    if (op < 8) write(d, v, "set", [d, v], [])
    else if (op == 8) write(d, if (pack(limbs) < Q) pack(limbs) else 0, "fromRepr", [d, pack(limbs)], [])
    else if (op == 9) write(d, md(raw * RINV, Q), "fromRaw", [d, raw], [])
    else if (op <= 11) write(d, (y + x) % Q, "add", [d, s], [])
    else if (op <= 13) write(d, md(y - x, Q), "sub", [d, s], [])
    else if (op <= 16) write(d, (y * x) % Q, "mul", [d, s], [])
    else if (op <= 18) write(d, (y * y) % Q, "square", [d], [])
    else if (op == 19) write(d, (2 * y) % Q, "double", [d], [])
    else if (op == 20) write(d, md(-y, Q), "neg", [d], [])
    else if (op == 21) write(d, invmod(x, Q), "inverse", [d, s], [b2i(x != 0)])
    else if (op == 22) write(d, y * invmod(x, Q) % Q, "div", [d, s], [])
    else if (op == 23) write(d, powmod(x, n, Q), "exp", [d, s, n], [])
    else if (op == 24) write(d, x * n % Q, "mulBits", [d, s, n], [])
    else if (op == 25) {
      val bs = if (dl == 4) toBytes(n, 48).concat(toBytes(x, 48)) else if (dl == 0 and n % 4 == 0) [] else toBytes(n, 48).slice(47 - dl * 11, 48)
      write(d, x * lsbFirst(bs) % Q, "mulBytes", [d, s].concat(bs), [])
    }
    else if (op <= 27) emit("observe", [d, s], [b2i(y == x), cmp(y, x), b2i(y == 0), b2i(y > md(-y, Q)), b2i(y % 2 == 1)])
    else if (op == 28) write(d, x, "copy", [d, s], [])
    else emit("isValid", [pack(limbs)], [b2i(pack(limbs) < Q)])
  }

  // the registers always hold canonical residues, and the algebra of one step is consistent
  val inv = reg.indices().forall(i => reg[i] >= 0 and reg[i] < Q)
}
