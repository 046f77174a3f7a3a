// State machine of extension-field elements: registers 0-2 hold Fq2, 3-4 Fq6, 5-6 Fq12 elements.
module m_tower {
  import params.* from "./params"
  import num.* from "./num"
  import pools.* from "./pools"
  import pick.* from "./pick"
  import tower.* from "./tower"

  type Event = { op: str, i: List[int], r: List[int] }
  var reg: List[List[int]]
  var ev: Event

  pure val RINV = invmod(RADQ, Q)
  pure def b2i(b: bool): int = if (b) 1 else 0
  pure def legendre(a: int): int = {
    val t = powmod(a, (Q - 1) / 2, Q)
    if (t == 0) 0 else if (t == 1) 1 else 2
  }
  // an element from eight given residues, chosen by the base-8 digits of the code
  pure def elem(code: int, n: int, pal: List[int]): List[int] =
    range(0, n).foldl((code, []), (s, _i) => (s._1 / 8, s._2.append(pal[s._1 % 8])))._2
  pure def dim(d: int): int = if (d < 3) 2 else if (d < 5) 6 else 12

  action emit(o: str, ins: List[int], res: List[int]): bool =
    all { reg' = reg, ev' = { op: o, i: ins, r: res } }
  action write(d: int, v: List[int], o: str, ins: List[int], res: List[int]): bool =
    all { reg' = reg.replaceAt(d, v), ev' = { op: o, i: ins, r: res } }

  action init = all {
    reg' = [[0, 0], [1, 0], [0, 1], zero(6), one(6), zero(12), one(12)],
    ev' = { op: "init", i: [], r: [] },
  }

  action step = {
    nondet d0 = 0.to(6).oneOf()
    nondet s0 = 0.to(2).oneOf()
    nondet s1 = 0.to(2).oneOf()
    nondet s2 = 0.to(2).oneOf()
    nondet k1 = KINDS.oneOf()
    nondet k2 = KINDS.oneOf()
    nondet c0 = COARSE.oneOf()
    nondet c1 = COARSE.oneOf()
    nondet e0 = WORDS.oneOf()
    nondet e1 = WORDS.oneOf()
    nondet tp = TOPQ.oneOf()
    nondet u = 0.to(Q - 1).oneOf()
    nondet code = 0.to(8^12 - 1).oneOf()
    nondet dl = 0.to(4).oneOf()
    nondet mode = 0.to(13).oneOf()
    nondet pw = 0.to(255).oneOf()
    nondet op0 = 0.to(43).oneOf()
    // a register just set is often inspected right away
    val follow = ev.op == "set" and mode % 2 == 0
    val d = if (follow) ev.i[0] else d0
    val op = if (follow) 30 else op0
    val n = dim(d)
    val s = if (n == 2) s0 else if (n == 6) 3 + s0 % 2 else 5 + s0 % 2
    val x = reg[s]
    val y = reg[d]
    val rw = md(pack([e0, c0, u % B64, c1, e1, tp]) * RINV, Q)
    val xv = x[code % n]
    val a1 = element(k1, Q, RINV, pack([c0, e0, c1, e1, c0, tp]) % Q, u, xv, dl)
    val a2 = element(k2, Q, RINV, pack([e1, c0, c0, u % B64, c1, tp]) % Q, md(u * u, Q), y[code % n], dl)
    // sparse, dense, or related to another element
    val pal = if (mode < 2) [0, 0, 0, 0, a1, 1, 0, Q - 1] else if (mode < 4) [a1, a2, rw, 0, 1, Q - 1, u, xv]
      else [a1, a2, md(-a1, Q), md(u + a1, Q), md(u * a2, Q), rw, u, md(a1 * a2, Q)]
    val v0 = elem(code, n, pal)
    val v = if (mode < 7) v0 else if (mode == 7) sub(v0, x) else if (mode == 8) neg(x)
      // exactly one or two coefficients not zero; one coefficient apart from another element
      else if (mode == 10) zero(n).replaceAt(code % n, a1)
      else if (mode == 11) zero(n).replaceAt(code % n, a1).replaceAt((code / 13) % n, a2)
      else if (mode == 12) x.replaceAt(code % n, a1)
      else if (mode == 13) x.replaceAt(code % n, element(20, Q, RINV, 0, u, xv, dl))
      else range(0, n).foldl([], (l, i) => l.append(if (i < n / 2) x[i] else md(-x[i], Q)))
    // exponents: mostly short
    val ex = if (mode < 4 or mode > 9) pw else if (mode < 6) 2^(61 + pw % 6) else if (mode == 6) (if (pw % 2 == 0) 2^(64 * (1 + pw / 8 % 5)) - pw % 3 else 2^(64 * (1 + pw / 8 % 5) - 1 + pw % 3)) else if (mode == 7) pack([e0, c0, e1, c1, c0, u % B64]) else if (mode == 8) 0 else pack([e0, c0, e1]) 
    if (op <= 9) write(d, v, "set", [d].concat(v), [])
    else if (op <= 11) write(d, add(y, x), "add", [d, s], [])
    else if (op <= 13) write(d, sub(y, x), "sub", [d, s], [])
    else if (op <= 17) write(d, mul(y, x), "mul", [d, s], [])
    else if (op <= 20) write(d, mul(y, y), "square", [d], [])
    else if (op == 21) write(d, add(y, y), "double", [d], [])
    else if (op == 22) write(d, neg(y), "neg", [d], [])
    else if (op <= 24) write(d, if (isZero(y)) y else invEl(y), "inverse", [d], [b2i(not(isZero(y)))])
    else if (op <= 27) write(d, frob(y, pw), "frob", [d, pw], [])
    else if (op == 28 or op > 41) write(d, pow(x, ex), "exp", [d, s, ex], [])
    else if (op == 29) write(d, x, "copy", [d, s], [])
    else if (op <= 31) {
      val base = [b2i(y == x), b2i(isZero(y))]
      if (n == 2) emit("observe", [d, s], base.concat([cmp2(y, x), b2i(greater2(y)), norm2(y), legendre(norm2(y))]))
      else emit("observe", [d, s], base)
    }
    else if (op <= 35) {
      if (n == 2) (if (op == 32) write(d, mul(y, [1, 1]), "nonres", [d], [])
        else if (op == 33) write(d, if (isZero(x)) zero(2) else mul(y, inv2(x)), "div", [d, s], [])
        else { val big = if (mode < 5) ex else pack([e0, c0, e1, c1, e0, c0, u % B64, e1, dl])
               write(d, scale(x, big), "mulBits", [d, s, big], []) })
      else if (n == 6) (if (op == 32) write(d, mul(y, NONRES6), "nonres", [d], [])
        else if (op <= 34) write(d, mul(y, sparse6(reg[s0], reg[s1])), "by01", [d, s0, s1], [])
        else write(d, mul(y, sparse6([0, 0], reg[s0])), "by1", [d, s0], []))
      else (if (op == 32) write(d, y.slice(0, 6).concat(neg(y.slice(6, 12))), "conj", [d], [])
        else write(d, mul(y, sparse12(reg[s0], reg[s1], reg[s2])), "by014", [d, s0, s1, s2], []))
    }
    else if (op <= 38) {
      if (n == 2) write(d, [x[0], y[1]], "build", [d, s], [])
      else if (n == 6) write(d, reg[s0].concat(reg[s1]).concat(reg[s2]), "build", [d, s0, s1, s2], [])
      else write(d, reg[3 + s0 % 2].concat(reg[3 + s1 % 2]), "build", [d, 3 + s0 % 2, 3 + s1 % 2], [])
    }
    // elements in special positions: powers with few conjugates
    else if (op == 39) write(d, mul(y, frob1(y)), "set", [d].concat(mul(y, frob1(y))), [])
    else { val cj = if (isZero(y)) one(n) else mul(invEl(y), frob(y, n / 2))  // unitary elements
           write(d, cj, "set", [d].concat(cj), []) }
  }

  // conjugation is the Frobenius map of half the degree, the norm of an element lies in the base field
  val inv = and {
    reg.indices().forall(i => length(reg[i]) == dim(i) and reg[i].indices().forall(j => reg[i][j] >= 0 and reg[i][j] < Q)),
    (ev.op == "inverse" and ev.r[0] == 1) implies not(isZero(reg[ev.i[0]])),
  }
}
