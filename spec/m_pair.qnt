// Pairings in exponents: two points of each group with known discrete logarithms.
module m_pair {
  import params.* from "./params"
  import num.* from "./num"
  import pools.* from "./pools"
  import tower.* from "./tower"
  import curveOver(P = Q) as c from "./curve"
  import curve.* from "./curve"
  import pairing.* from "./pairing"

  type Event = { op: str, i: List[int], r: List[int] }
  // exponents of the points, the points, and the target-group elements computed so far
  var a: List[int]
  var b: List[int]
  var p: List[List[int]]
  var q: List[List[int]]
  var t: List[int]
  var ev: Event

  pure val RINV = invmod(RADQ, Q)
  pure val RINVR = invmod(RADR, R)
  pure def b2i(x: bool): int = if (x) 1 else 0

  action keep(ta: List[int], o: str, ins: List[int], res: List[int]): bool =
    all { a' = a, b' = b, p' = p, q' = q, t' = ta, ev' = { op: o, i: ins, r: res } }
  action setP(d: int, e: int, o: str, x: List[int], ins: List[int]): bool =
    all { a' = a.replaceAt(d, e), b' = b, p' = p.replaceAt(d, x), q' = q, t' = t, ev' = { op: o, i: ins, r: [] } }
  action setQ(d: int, e: int, o: str, x: List[int], ins: List[int]): bool =
    all { a' = a, b' = b.replaceAt(d, e), p' = p, q' = q.replaceAt(d, x), t' = t, ev' = { op: o, i: ins, r: [] } }

  action init = all { a' = [1, 1], b' = [1, 1], p' = [G1, G1], q' = [G2, G2], t' = one(12), ev' = { op: "init", i: [], r: [] } }

  pure def flat(x: List[int]): List[int] = if (x == []) [1] else [0].concat(x)

  pure def exponent(kind: int, u: int, other: int, dl: int): int =
    md(if (kind < 3) 0 else if (kind < 5) 1 + dl else if (kind < 7) R - 1 - dl else if (kind == 7) other
       else if (kind == 8) -other else if (kind == 9) 2^(u % 255) else if (kind == 10) invmod(other, R)
       else if (kind == 11) X * (1 + dl) else if (kind == 12) (R + 1) / 2 + dl else if (kind == 13) other + 1 else u, R)

  // an element of the target field for the final exponentiation
  pure def fieldElement(kind: int, x: int, y: int, dl: int): List[int] =
    if (kind == 0) zero(12)
    else if (kind == 1) zero(12).replaceAt(dl, x)
    else if (kind == 2) [x, y].concat(zero(12).slice(2, 12))
    else if (kind == 3) zero(12).replaceAt(6 + dl % 6, x).replaceAt(dl % 6, y)
    else if (kind == 4) range(0, 6).foldl([], (l, i) => l.append((x * (i + 1) + y) % Q)).concat([0, 0, 0, 0, 0, 0])
    else if (kind == 5) [0, 0, 0, 0, 0, 0].concat(range(0, 6).foldl([], (l, i) => l.append((x * (i + 1) + y) % Q)))
    else if (kind == 6) range(0, 12).foldl([], (l, i) => l.append(Q - 1 - (i * dl) % 3))
    else range(0, 12).foldl([], (l, i) => l.append((x * (i * i + 1) + y * (i + 1)) % Q))

  action step = {
    nondet op = 0.to(19).oneOf()
    nondet d = 0.to(1).oneOf()
    nondet i = 0.to(1).oneOf()
    nondet j = 0.to(1).oneOf()
    nondet k = 0.to(1).oneOf()
    nondet kind = 0.to(20).oneOf()
    nondet u = 0.to(R - 1).oneOf()
    nondet x = 0.to(Q - 1).oneOf()
    nondet z = Set(0, 1, 2, 3).oneOf()
    nondet dl = 0.to(11).oneOf()
    nondet n = Set(0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33).oneOf()
    nondet picks = 0.to(4^33 - 1).oneOf()
    // projective representations: z coordinates
    val zs = if (z == 0) [1, 1, 0] else if (z == 1) [x, x * 7 % Q, u] else if (z == 2) [Q - 1, 0, 1] else [x, 1, 0]
    if (op <= 2) { val e = exponent(kind, u, if (d == i) b[j] else a[1 - d], dl)  setP(d, e, "setP", c::pmul(G1, e), [d].concat(flat(c::pmul(G1, e)))) }
    else if (op <= 5) { val e = exponent(kind, u, if (d == i) a[j] else b[1 - d], dl)  setQ(d, e, "setQ", c::pmul(G2, e), [d].concat(flat(c::pmul(G2, e)))) }
    // a whole pair moved: (c P, Q / c) has the same pairing
    else if (op == 6) {
      val e = if (kind < 4) R - 1 else if (kind < 8) 2 + dl else if (u == 0) 1 else u
      val a2 = a[1 - d] * e % R
      val b2 = b[1 - d] * invmod(e, R) % R
      val p2 = c::pmul(G1, a2)
      val q2 = c::pmul(G2, b2)
      all { a' = a.replaceAt(d, a2), b' = b.replaceAt(d, b2), p' = p.replaceAt(d, p2), q' = q.replaceAt(d, q2), t' = t,
            ev' = { op: "setBoth", i: [d, length(p2)].concat(p2).concat(q2), r: [] } }
    }
    else if (op <= 10) { val g = gtPow(a[i] * b[j])  keep(g, "pair", [i, j].concat(zs), g) }
    // a Miller loop over n pairs, each picked by a base-4 digit, and the final exponentiation
    else if (op <= 13) {
      val ps = digits(picks, 2, n)
      val g = gtPow(ps.foldl(0, (s, w) => s + a[w / 2] * b[w % 2]))
      keep(g, "loop", ps, g)
    }
    else if (op <= 16) keep(t, "compare", [i, j, k, if (dl < 4) j else 1 - d].concat(zs),
                            [b2i(md(a[i] * b[j] - a[k] * b[if (dl < 4) j else 1 - d], R) == 0)])
    // e(P0, Q0) against e(P1, Q1)
    else if (op == 17) keep(t, "compare", [d, d, 1 - d, 1 - d].concat(zs), [b2i(md(a[0] * b[0] - a[1] * b[1], R) == 0)])
    // the product of an earlier value and a pairing
    else if (op == 18) { val g = mul(t, gtPow(a[i] * b[j]))  keep(g, "times", [i, j].concat(zs), g) }
    else { val f = if (kind < 4 and not(kind == 0)) t else fieldElement(kind % 10, x, u, dl)
           if (isZero(f)) keep(t, "finalExp", f, []) else keep(t, "finalExp", f, finalExp(f)) }
  }

  // points lie on their curves; targets have order dividing r (they are produced as powers of GT)
  val inv = and {
    p.indices().forall(n => c::onCurve(p[n], B1) and (p[n] == [] iff a[n] == 0)),
    q.indices().forall(n => c::onCurve(q[n], B2) and (q[n] == [] iff b[n] == 0)),
    (ev.op == "pair") implies ((t == one(12)) iff (a[ev.i[0]] == 0 or b[ev.i[1]] == 0)),
  }
}
