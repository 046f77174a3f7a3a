// State machine of the fixed-width integer containers: three 384-bit and two 256-bit registers.
module m_repr {
  import params.* from "./params"
  import num.* from "./num"
  import pools.* from "./pools"
  import pick.* from "./pick"

  type Event = { op: str, i: List[int], r: List[int] }
  // widths of the registers
  pure val W = [384, 384, 384, 256, 256]
  var reg: List[int]
  var ev: Event

  pure val SHIFTS = Set(0, 1, 2, 31, 32, 62, 63, 64, 65, 96, 126, 127, 128, 129, 191, 192, 193, 255, 256, 257,
    319, 320, 321, 382, 383, 384, 385, 400, 448, 512, 1000)
  pure def b2i(b: bool): int = if (b) 1 else 0
  pure def cmp(a: int, b: int): int = if (a < b) -1 else if (a > b) 1 else 0

  action emit(o: str, ins: List[int], res: List[int]): bool = all { reg' = reg, ev' = { op: o, i: ins, r: res } }
  action write(d: int, v: int, o: str, ins: List[int], res: List[int]): bool =
    all { reg' = reg.replaceAt(d, v), ev' = { op: o, i: ins, r: res } }

  action init = all { reg' = [0, 1, Q, 0, R], ev' = { op: "init", i: [], r: [] } }

  action step = {
    nondet d = 0.to(4).oneOf()
    nondet s0 = 0.to(2).oneOf()
    nondet e0 = WORDS.oneOf()
    nondet e1 = WORDS.oneOf()
    nondet e2 = COARSE.oneOf()
    nondet e3 = COARSE.oneOf()
    nondet u0 = 0.to(2^64 - 1).oneOf()
    nondet u1 = 0.to(2^64 - 1).oneOf()
    nondet ca = 0.to(8^6 - 1).oneOf()
    nondet sh = SHIFTS.oneOf()
    nondet sh2 = 0.to(390).oneOf()
    nondet dl = 0.to(3).oneOf()
    nondet mode = 0.to(9).oneOf()
    nondet op = 0.to(27).oneOf()
    val pal = [e0, e1, e2, e3, u0, u1, 0, 2^64 - 1]
    val w = W[d]
    val m = 2^w
    // a register of the same width
    val s = if (w == 384) s0 else 3 + s0 % 2
    val x = reg[d]
    val y = reg[s]
    val v0 = pattern(ca, w / 64, pal)
    val v = if (mode < 5) v0 else if (mode == 5) y else if (mode == 6) md(y + dl - 1, m) else if (mode == 7) md(-y + dl - 1, m)
      else if (mode == 8) 2^(sh2 % w) - dl % 2 else dl
    val k = if (mode < 6) sh else sh2
    if (op <= 4) write(d, v, "set", [d, v], [])
    else if (op <= 6) write(d, x * 2^min(k, w) % m, "lsh", [d, k], [])
    else if (op <= 8) write(d, x / 2^k, "rsh", [d, k], [])
    else if (op == 9) write(d, x / 2, "div2", [d], [])
    else if (op == 10) write(d, 2 * x % m, "mul2", [d], [])
    else if (op <= 12) write(d, (x + y) % m, "add", [d, s], [])
    else if (op <= 14) write(d, md(x - y, m), "sub", [d, s], [])
    else if (op <= 17) emit("observe", [d, s], [cmp(x, y), b2i(x == y), b2i(x == 0), b2i(x % 2 == 1), b2i(x % 2 == 0), bitlen(x)])
    else if (op == 18) emit("bit", [d, k % w], [b2i(bit(x, k % w))])
    else if (op == 19) emit("bytes", [d], toBytes(x, w / 8))
    else if (op == 20) write(d, v, "fromBytes", [d].concat(toBytes(v, w / 8)), [])
    // conversions of signed integers of any size: rejected when negative or too wide
    else if (op <= 22) {
      val n = if (mode < 4) v else if (mode == 4) -v else if (mode == 5) v * 2^k else if (mode == 6) m + v else if (mode == 7) m - 1 - v
        else if (mode == 8) m + dl - 2 else dl - 2
      val base = if (dl == 0) 10 else if (dl == 1) 16 else if (dl == 2) 2 else 36
      val ok = n >= 0 and n < m
      val o = if (op == 21) "fromBig" else "fromString"
      // how a string is written: leading zeros, capital letters
      val form = if (op == 21) [] else [sh % 4]
      if (ok) write(d, n, o, [d, n, base].concat(form), [1]) else emit(o, [d, n, base].concat(form), [0])
    }
    else if (op == 23) emit("badString", [d, mode], [0])
    else if (op == 24) write(d, y, "copy", [d, s], [])
    else if (op == 25) write(d, e0, "new", [d, e0], [])
    else if (op == 26) (if (w == 256 and mode % 2 == 0) write(dl % 3, x, "toFQ", [dl % 3, d], []) else write(d, x, "toBig", [d], []))
    // the bits of a word list, most significant word last
    else {
      val l = ca % 5
      val n = v % 2^(64 * l)
      emit("bits", digits(n, 64, l), digits(n, 1, 64 * l))
    }
  }

  val inv = reg.indices().forall(i => reg[i] >= 0 and reg[i] < 2^W[i])
}
