// The word-level primitives, which exist twice: as amd64 assembly and as
// portable Go. Each call is a function of its operands; the machine generates
// operands that make carries and borrows ripple or just not ripple.
module m_words {
  import params.* from "./params"
  import num.* from "./num"
  import pools.* from "./pools"
  import pick.* from "./pick"

  type Event = { op: str, i: List[int], r: List[int] }
  var ev: Event

  // -1/Q modulo the radix: the quotient digits of Montgomery reduction
  pure val NQINV = {
    // Hensel lifting from the inverse modulo 2
    val q1 = range(0, 9).foldl(1, (x, _i) => md(x * (2 - Q * x), RADQ))
    md(-q1, RADQ)
  }
  // the reduction every T below Q * 2^384 must yield
  pure def redc(t: int): int = (t + (t % RADQ) * NQINV % RADQ * Q) / RADQ

  pure def six(n: int): List[int] = digits(n, 64, 6)

  action emit(o: str, ins: List[int], res: List[int]): bool = ev' = { op: o, i: ins, r: res }
  action init = emit("init", [], [])

  action step = {
    nondet e0 = WORDS.oneOf()
    nondet e1 = WORDS.oneOf()
    nondet e2 = COARSE.oneOf()
    nondet e3 = COARSE.oneOf()
    nondet u0 = 0.to(2^64 - 1).oneOf()
    nondet u1 = 0.to(2^64 - 1).oneOf()
    nondet ca = 0.to(8^6 - 1).oneOf()
    nondet cb = 0.to(8^6 - 1).oneOf()
    nondet cw = 0.to(8^4 - 1).oneOf()
    nondet mode = 0.to(5).oneOf()
    nondet dl = 0.to(3).oneOf()
    nondet op = 0.to(15).oneOf()
    val pal = [e0, e1, e2, e3, u0, u1, 0, 2^64 - 1]
    val ds = digits(cw, 3, 4)
    val a = pal[ds[0]]
    val b = pal[ds[1]]
    val c = pal[ds[2]]
    val d = pal[ds[3]]
    // accumulators completing the low or the full product to a boundary
    val bc = b * c
    val a1 = if (mode < 3) a else md(dl - 1 - bc, 2^64)
    val d1 = if (mode < 4) d else md(dl - 1 - bc - a1, 2^64)
    val x = pattern(ca, 6, pal)
    val y0 = pattern(cb, 6, pal)
    // complements of x, wholly or in the limbs where the second code has small digits
    val comp = RADQ - 1 - x
    val y = if (mode < 2) y0 else if (mode == 2) md(comp + dl, RADQ) else if (mode == 3) md(x + dl - 1, RADQ)
      else digits(cb, 3, 6).foldl((0, 0), (s, g) => (s._1 + 1,
        s._2 + (if (g < 6) (if (mode == 4) (comp / 2^(64 * s._1)) % 2^64 else (x / 2^(64 * s._1)) % 2^64) else pal[g]) * 2^(64 * s._1)))._2
    if (op <= 2) emit("mac", [a1, b, c, d1], [(a1 + bc + d1) % 2^64, (a1 + bc + d1) / 2^64])
    else if (op <= 4) {
      val cy = if (mode < 3) d else md(dl - 1 - a - b, 2^64)
      emit("adc", [a, b, cy], [(a + b + cy) % 2^64, (a + b + cy) / 2^64])
    }
    else if (op <= 6) {
      val b1 = if (mode < 3) b else md(a + dl - 1, 2^64)
      val bw = dl % 2
      emit("sbb", [a, b1, bw], [md(a - b1 - bw, 2^64), if (a - b1 - bw < 0) 1 else 0])
    }
    else if (op == 7) emit("addNC", six(x).concat(six(y)), six((x + y) % RADQ))
    else if (op == 8) emit("subNB", six(x).concat(six(y)), six(md(x - y, RADQ)))
    else if (op <= 11) emit("mul", six(x).concat(six(y)), six((x * y) / RADQ).concat(six((x * y) % RADQ)))
    else {
      // T below Q * 2^384: high part and quotient digits are patterns, or result and quotient digits are
      val hi = x % Q
      val t = if (mode < 2) hi * RADQ + y0
        else if (mode < 4) hi * RADQ + md(-y0 * Q, RADQ)
        else md((x % (2 * Q)) * RADQ - y0 * Q, Q * RADQ)
      emit("redc", six(t / RADQ).concat(six(t % RADQ)), six(redc(t)))
    }
  }

  // Montgomery's bound and congruence, for every reduction generated
  val inv = (ev.op == "redc") implies {
    val t = undigits(ev.i.slice(0, 6), 64) * RADQ + undigits(ev.i.slice(6, 12), 64)
    val o = undigits(ev.r, 64)
    o < 2 * Q and (o * RADQ - t) % Q == 0
  }
}
