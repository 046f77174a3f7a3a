// State machine of curve points: three projective and two affine registers, each holding an
// abstract point; the coordinates a projective register is given are scaled by an arbitrary Z.
module m_curve {
  import params.* from "./params"
  import num.* from "./num"
  import pools.* from "./pools"
  import curveOver(P = Q).* from "./curve"
  import curve.* from "./curve"
  import torsion.* from "./torsion"

  const DEG: int

  type Event = { op: str, i: List[int], r: List[int] }
  var pr: List[List[int]]
  var af: List[List[int]]
  var ev: Event

  pure val RINV = invmod(RADQ, Q)
  pure val B = if (DEG == 1) B1 else B2
  pure val G = if (DEG == 1) G1 else G2
  pure val NTOR = if (DEG == 1) length(TORSION1) else length(TORSION2)
  pure def torsion(i: int): List[int] = if (DEG == 1) TORSION1[i] else TORSION2[i]
  pure def order(i: int): int = if (DEG == 1) ORDERS1[i] else ORDERS2[i]
  pure val WILD = if (DEG == 1) WILD1 else WILD2
  pure val FONE = if (DEG == 1) [1] else [1, 0]
  pure val ABITS = Set(0, 1, 2, 63, 64, 65, 127, 128, 191, 192, 254, 255, 256, 319, 320, 380, 383)

  pure val EDGES = if (DEG == 1) EDGE1.concat(SHORT1) else EDGE2.concat(SHORT2)
  // another point with the same y
  pure def twist(p: List[int]): List[int] = if (p == []) [] else fscale(px(p), BETA).concat(py(p))
  // half of z
  pure def half(z: int): int = md(z * ((Q + 1) / 2), Q)

  // scalings for which z, z^2 or z^3 is a special value
  pure val ZSPECIAL = if (DEG == 1) [[Q - 1], [BETA], [BETA * BETA % Q], [Q - BETA], [2], [half(1)], [RINV], [Q - RINV]]
    else [[Q - 1, 0], [0, 1], [0, Q - 1], [1, 1], [BETA, 0], [BETA * BETA % Q, 0], [Q - BETA, 0], [0, BETA], [2, 0], [RINV, 0], [0, RINV], [Q - 1, Q - 1]]

  pure def b2i(b: bool): int = if (b) 1 else 0
  // coordinates of a point scaled by z; the identity keeps arbitrary x and y
  pure def scaled(p: List[int], z: List[int], junk: List[int]): List[int] =
    if (p == []) junk.concat(junk).concat(fscale(FONE, 0))
    else { val zz = fmul(z, z)  fmul(px(p), zz).concat(fmul(py(p), fmul(zz, z))).concat(z) }
  pure def flat(p: List[int]): List[int] = if (p == []) [1] else [0].concat(p)

  action emit(o: str, ins: List[int], res: List[int]): bool =
    all { pr' = pr, af' = af, ev' = { op: o, i: ins, r: res } }
  action wp(d: int, v: List[int], o: str, ins: List[int]): bool =
    all { pr' = pr.replaceAt(d, v), af' = af, ev' = { op: o, i: ins, r: [] } }
  action wa(d: int, v: List[int], o: str, ins: List[int]): bool =
    all { pr' = pr, af' = af.replaceAt(d, v), ev' = { op: o, i: ins, r: [] } }

  action init = all { pr' = [[], G, WILD], af' = [[], G], ev' = { op: "init", i: [], r: [] } }

  action step = {
    nondet d0 = 0.to(2).oneOf()
    nondet s0 = 0.to(2).oneOf()
    nondet fo = 0.to(7).oneOf()
    nondet a = 0.to(1).oneOf()
    nondet a2 = 0.to(1).oneOf()
    nondet rel0 = 0.to(22).oneOf()
    nondet small = 0.to(6).oneOf()
    nondet t = 0.to(5).oneOf()
    nondet kind = KINDS.oneOf()
    nondet zk = KINDS.oneOf()
    nondet c0 = COARSE.oneOf()
    nondet c1 = COARSE.oneOf()
    nondet e0 = WORDS.oneOf()
    nondet tp = TOPQ.oneOf()
    nondet u = 0.to(Q - 1).oneOf()
    nondet u2 = 0.to(Q - 1).oneOf()
    nondet bt = ABITS.oneOf()
    nondet dl = 0.to(4).oneOf()
    nondet op0 = 0.to(41).oneOf()
    // a point just set, above all one with a zero coefficient, often meets its opposite or another relative
    val now = if (ev.op == "set") ev.i[0] else 0
    val special = DEG == 2 and pr[now] != [] and (pr[now][2] == 0 or pr[now][3] == 0)
    val follow = if (ev.op == "set") (if (special) fo % 4 else fo) else if (ev.op == "setAff" and fo < 2) 4 else if (ev.op == "setAff" and fo < 5) 5 else 9
    val d = if (follow == 0) (now + 1) % 3 else if (follow <= 2) (now + 2) % 3 else d0
    val s = if (follow <= 3) now else s0
    val rel = if (follow == 0 or follow == 3) (if (small < 4) 2 else if (small == 4) 1 else 17) else rel0
    val op = if (follow == 0) 0 else if (follow == 1) 10 else if (follow == 2) 31 else if (follow == 3) 7 else if (follow == 4) 16 else if (follow == 5) 34 else op0
    val x = pr[s]
    val y = pr[d]
    val f = af[a]
    val tor = torsion(t % NTOR)
    // points in every relation to the live ones
    val v = if (rel == 0) [] else if (rel == 1) x else if (rel == 2) pneg(x) else if (rel == 3) f else if (rel == 4) pneg(f)
      else if (rel == 5) padd(x, f) else if (rel == 6) padd(x, pneg(f)) else if (rel == 7) padd(x, tor)
      else if (rel == 8) tor else if (rel == 9) padd(x, x) else if (rel == 10) pmul(G, small)
      else if (rel == 11) pmul(WILD, small) else if (rel == 12) padd(WILD, pneg(x)) else if (rel == 13) pmul(G, u % 2^40)
      // a point from a structured x-coordinate, if there is one
      else if (rel == 14) { val l = lift(if (DEG == 1) [md(pack([c0, e0, c1, u % B64, c0, tp]) * RINV, Q)] else [md(pack([c0, e0, c1, u % B64, c0, tp]) * RINV, Q), u2], B, small < 3)  if (l == []) x else l }
      else if (rel == 15) padd(tor, f)
      // points that share y, or one coefficient of x, with a live one; points with a zero coefficient
      else if (rel == 16 or rel > 20) EDGES[(if (rel == 22) t + 3 * (small % 2) else t + 6 * small) % length(EDGES)]
      else if (rel == 17) twist(x)
      else if (rel == 18) pneg(twist(f))
      else if (DEG == 2 and f != []) { val l = lift(if (rel == 19) [f[0], u] else [u, f[1]], B, small < 3)  if (l == []) twist(f) else l }
      else padd(x, twist(x))
    val z0 = element(zk, Q, RINV, pack([c0, e0, c1, u2 % B64, c1, tp]) % Q, u2, if (f == []) 1 else f[0], dl)
    val z1 = if (dl == 0) [z0] else if (dl == 1) [u] else [1]
    val z = if (follow != 0 and u % 8 == 0) ZSPECIAL[(u / 8) % length(ZSPECIAL)] else if (DEG == 1) (if (z0 == 0 or dl > 2) [1] else [z0])
      // real scalings keep the zero and equal coefficients of special points
      else if (follow == 0 or rel == 16 or rel >= 19) (if (z0 == 0 or dl < 3) [1, 0] else if (dl == 3) [z0, 0] else [0, z0])
      else if (dl > 2) [1, 0] else if (dl == 1) [z0, 1] else if (z0 == 0) [0, 1] else if (dl == 0) [0, z0] else [z0, u]
    val junk = if (DEG == 1) [u] else [u, u2]
    // scalars
    val n = if (kind < 4) pack([c0, e0, c1, u % B64, c1, tp]) else if (kind < 6) 2^bt else if (kind == 6) 2^(bt + 1) - 1 else if (kind == 7) R
      else if (kind == 8) R + dl - 2 else if (kind == 9) 2 * R + dl - 1 else if (kind == 10) order(t % NTOR) % 2^384 else if (kind == 11) order(t % NTOR) % 2^256 + dl
      else if (kind < 16) small else if (kind == 16) u % R else if (kind == 17) R * (u % 2^64) else if (kind == 18) u % 2^64 else 2^384 - 1 - dl
    val n4 = n % 2^256
    if (op <= 6) wp(d, v, "set", [d].concat(scaled(v, z, junk)))
    else if (op <= 9) { val dst = if (dl < 4) 1 - a else a
                       wa(dst, v, "setAff", [dst].concat(flat(v))) }
    else if (op <= 15) wp(d, padd(y, x), "add", [d, s])
    else if (op <= 20) wp(d, padd(y, f), "addAff", [d, a])
    else if (op <= 23) wp(d, padd(y, y), "double", [d])
    else if (op == 24) (if (DEG == 1) wp(d, pneg(y), "neg", [d]) else wa(a, pneg(f), "negAff", [a]))
    else if (op == 25) wp(d, x, "copy", [d, s])
    else if (op <= 27) wa(a, x, "toAffine", [a, s])
    else if (op == 28) wp(d, f, "toProj", [d, a])
    else if (op == 29) wa(a, pneg(f), "negAff", [a])
    else if (op == 30) wa(a, af[a2], "copyAff", [a, a2])
    else if (op <= 33) emit("observe", [d, s], [b2i(y == []), b2i(y == x)])
    else if (op <= 35) emit("observeAff", [a, a2], [b2i(f == []), b2i(f == af[a2]), 1])
    // off-curve coordinates are recognised
    else if (op == 36) { val g = if (f == []) G else f
                         val i = kind % (2 * DEG)
                         val w = if (dl == 0) (if (DEG == 1) [u, u2] else [u, u2, u2, u])
                           else if (dl == 1) twist(g)
                           else if (dl == 2) g.replaceAt(i, element(zk, Q, RINV, 0, u, g[i], dl))
                           // y such that only one coefficient of y^2 is wrong
                           else if (DEG == 2) {
                             val ui = invmod(u, Q)
                             val s1 = (g[2] + g[3]) * ui
                             val d1 = (g[2] - g[3]) * u
                             if (dl == 3) px(g).concat([half(s1 + d1), half(s1 - d1)]) else px(g).concat([g[2] * u % Q, g[3] * ui % Q]) }
                           else [g[0], md(-g[1] + 1, Q)]
                         emit("onCurve", w, [b2i(onCurve(w, B))]) }
    else if (op == 37) wp(d, pmul(x, n), "mul", [d, s, n])
    else if (op == 38) wp(d, pmul(x, n4), "mulFR", [d, s, n4])
    else if (op == 39) wp(d, pmul(f, n), "mulAff", [d, a, n])
    else if (op == 40) wp(d, pmul(f, n4), "mulAffFR", [d, a, n4])
    else if (DEG == 1) wp(d, padd(y, tor), "addConst", [d].concat(tor))
    else { val w = if (dl == 0) n * 2^(bt + 100) + u else if (dl == 1) n else if (dl == 2) R * order(t % NTOR) else 2^640 - 1 - small
           wp(d, pmul(f, w), "mulAffBig", [d, a, w]) }
  }

  val inv = and {
    pr.indices().forall(i => onCurve(pr[i], B)),
    af.indices().forall(i => onCurve(af[i], B)),
  }

  // the constants are what they claim: orders of generator and torsion points, cofactors
  run constTest = all {
    assert(onCurve(G, B) and pmul(G, R) == []),
    assert(range(0, NTOR).foldl(true, (acc, i) => acc and onCurve(torsion(i), B) and pmul(torsion(i), order(i)) == [])),
    assert(onCurve(WILD, B) and pmul(pmul(WILD, if (DEG == 1) H1 * 3 * 11 * 10177 * 859267 * 52437899 else H2), R) == []),
    assert(pmul(WILD, R) != []),
    assert((if (DEG == 1) (X + 1) * (X + 1) / 3 == H1 else 9 * H2 == X^8 + 4 * X^7 + 5 * X^6 - 4 * X^4 - 6 * X^3 - 4 * X^2 + 4 * X + 13)),
  }
}
module m_g1 {
  import m_curve(DEG = 1).*
}
module m_g2 {
  import m_curve(DEG = 2).*
}
