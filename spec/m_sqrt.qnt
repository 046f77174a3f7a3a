// Square roots, Legendre symbols and parity in Fq and Fq2. Each step asks about one element.
module m_sqrt {
  import params.* from "./params"
  import num.* from "./num"
  import pools.* from "./pools"
  import tower.* from "./tower"

  type Event = { op: str, i: List[int], r: List[int] }
  var ev: Event

  pure val RINV = invmod(RADQ, Q)
  pure def b2i(b: bool): int = if (b) 1 else 0
  pure def legendre(a: int): int = {
    val t = powmod(a, (Q - 1) / 2, Q)
    if (t == 0) 0 else if (t == 1) 1 else 2
  }

  action emit(o: str, ins: List[int], res: List[int]): bool = ev' = { op: o, i: ins, r: res }
  action init = emit("init", [], [])

  action step = {
    nondet k1 = KINDS.oneOf()
    nondet k2 = KINDS.oneOf()
    nondet c0 = COARSE.oneOf()
    nondet c1 = COARSE.oneOf()
    nondet e0 = WORDS.oneOf()
    nondet e1 = WORDS.oneOf()
    nondet tp = TOPQ.oneOf()
    nondet u = 0.to(Q - 1).oneOf()
    nondet u2 = 0.to(Q - 1).oneOf()
    nondet dl = 0.to(4).oneOf()
    nondet mode = 0.to(12).oneOf()
    nondet sq = 0.to(5).oneOf()
    nondet op = 0.to(8).oneOf()
    val a = element(k1, Q, RINV, pack([c0, e0, c1, e1, c0, tp]) % Q, u, u2, dl)
    val b = element(k2, Q, RINV, pack([e1, c0, c0, u % B64, c1, tp]) % Q, u2, a, dl)
    if (op <= 2) {
      val x = if (mode < 4) a else if (mode < 7) a * a % Q else if (mode < 9) md(-a * a, Q) else if (mode == 9) md(a - u, Q) else b
      val l = legendre(x)
      emit("fq", [x], [b2i(l != 2), l, b2i(x > md(-x, Q))])
    }
    else {
      val z = if (mode < 4) [a, b] else if (mode == 4) [a, 0] else if (mode == 5) [0, a] else if (mode == 6) [a, a] else if (mode == 7) [a, md(-a, Q)]
        else if (mode == 8) [u, u2] else if (mode == 9) [b, a] else if (mode == 10) [dl, md(1 - dl, Q)]
        // roots of unity of order dividing 16, and their multiples in the base field
        else { val g = pow2e([u, u2], (Q * Q - 1) / 16)  if (mode == 11) g else scale(g, a) }
      val x = if (sq < 3) z else if (sq == 3) mul2(z, z) else if (sq == 4) neg(mul2(z, z)) else mul2([1, 1], mul2(z, z))
      val l = legendre(norm2(x))
      emit("fq2", x, [b2i(l != 2), l, b2i(greater2(x))])
    }
  }

  // an element is a square in Fq2 exactly when its norm is a square in Fq: the definition by the
  // exponent (q^2-1)/2 agrees on every element generated with small second coordinate
  val inv = (ev.op == "fq2" and ev.i[1] < 8) implies {
    val t = pow2e(ev.i, (Q * Q - 1) / 2)
    (ev.r[1] == 1) == (t == [1, 0]) and (ev.r[1] == 0) == (t == [0, 0])
  }
}
