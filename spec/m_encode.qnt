// The exported encodings next to the hashes: digests to fields, field elements to points, points
// from an x-coordinate, multiples by fixed constants.
module m_encode {
  import params.* from "./params"
  import num.* from "./num"
  import pools.* from "./pools"
  import curveOver(P = Q).* from "./curve"
  import curve.* from "./curve"
  import torsion.* from "./torsion"
  import codec.* from "./codec"
  import h2c.* from "./h2c"

  type Event = { op: str, i: List[int], r: List[int] }
  // the last field element (two coefficients) and the last points: inputs of later steps
  var t: List[int]
  var p1: List[int]
  var p2: List[int]
  var ev: Event

  pure val RINV = invmod(RADQ, Q)
  pure def flat(p: List[int]): List[int] = if (p == []) [1] else [0].concat(p)

  action emit(o: str, ins: List[int], res: List[int]): bool = all { t' = t, p1' = p1, p2' = p2, ev' = { op: o, i: ins, r: res } }
  action gave1(o: str, ins: List[int], p: List[int]): bool = all { t' = t, p1' = p, p2' = p2, ev' = { op: o, i: ins, r: flat(p) } }
  action gave2(o: str, ins: List[int], p: List[int]): bool = all { t' = t, p1' = p1, p2' = p, ev' = { op: o, i: ins, r: flat(p) } }

  action init = all { t' = [0, 0], p1' = G1, p2' = G2, ev' = { op: "init", i: [], r: [] } }

  pure def digest(kind: int, n: int, u: int): List[int] =
    if (kind < 12) toBytes(u, n) else if (kind < 14) zeros(n)
    else if (kind < 16) range(0, n).foldl([], (l, _i) => l.append(255))
    else if (n == 0) [] else zeros(n).replaceAt(u % n, 2^(u % 8))

  action step = {
    nondet op = 0.to(19).oneOf()
    nondet kind = KINDS.oneOf()
    nondet kind2 = KINDS.oneOf()
    nondet c0 = COARSE.oneOf()
    nondet e0 = WORDS.oneOf()
    nondet tp = TOPQ.oneOf()
    nondet u = 0.to(Q - 1).oneOf()
    nondet big = 0.to(2^512 - 1).oneOf()
    nondet n = Set(0, 1, 2, 16, 20, 28, 31, 32, 33, 47, 48, 49, 63, 64).oneOf()
    nondet dl = 0.to(9).oneOf()
    nondet k = 0.to(48).oneOf()
    nondet greatest = Bool.oneOf()
    val raw = pack([c0, e0, c0, u % B64, c0, tp]) % Q
    val a = element(kind, Q, RINV, raw, big % Q, u, dl)
    val b = element(kind2, Q, RINV, raw, u, a, dl)
    val x = if (k < 8) [a, 0] else if (k < 16) [0, a] else if (k < 20) t else if (k < 24) fneg(t) else if (k < 26) [dl, k] else if (k == 26) [0, 0] else [a, b]
    val g = if (greatest) 1 else 0
    if (op <= 1) { val d = digest(kind, n, big)  emit("hashFQ", d, [bitsReversed(d, Q)]) }
    else if (op <= 3) { val d = digest(kind, n, big)  emit("hashFR", d, [bitsReversed(d, R)]) }
    else if (op == 4) { val d = digest(kind, n, big)  emit("hashFQ2", d, [fromBytes(d) % Q, 0]) }
    else if (op <= 8) { val p = swEncode(x, S3)
                        all { t' = x, p1' = p1, p2' = p, ev' = { op: "swEncode", i: x, r: flat(p) } } }
    else if (op <= 12) all { t' = x, p1' = p1, p2' = p2, ev' = { op: "swu", i: x, r: flat(swu(x)) } }
    else if (op <= 14) { val p = lift([a], B1, greatest)
                         if (p == []) emit("fromX1", [a, g], [1]) else gave1("fromX1", [a, g], p) }
    else if (op <= 16) { val p = lift(x, B2, greatest)
                         if (p == []) emit("fromX2", x.append(g), [1]) else gave2("fromX2", x.append(g), p) }
    else if (op == 17) {
      val p = if (k < 20) p1 else if (k < 25) TORSION1[k % length(TORSION1)] else if (k < 30) padd(p1, G1) else if (k == 30) []
        else if (k < 35) padd(p1, WILD1) else if (k < 40) padd(p1, TORSION1[k % length(TORSION1)]) else { val l = lift([a], B1, greatest)  if (l == []) p1 else l }
      gave1("clearH", flat(p), clear1(p))
    }
    else if (op == 18) {
      val p = if (k < 20) p1 else if (k < 25) TORSION1[k % length(TORSION1)] else if (k < 30) padd(p1, G1) else if (k == 30) []
        else if (k < 35) padd(p1, WILD1) else if (k < 40) padd(p1, TORSION1[k % length(TORSION1)]) else { val l = lift([a], B1, greatest)  if (l == []) p1 else l }
      gave1("scale1", flat(p), pmul(p, H1))
    }
    else {
      val p = if (k < 20) p2 else if (k < 25) TORSION2[k % length(TORSION2)] else if (k < 30) padd(p2, G2) else if (k == 30) []
        else if (k < 35) padd(p2, WILD2) else if (k < 40) padd(p2, TORSION2[k % length(TORSION2)]) else { val l = lift(x, B2, greatest)  if (l == []) p2 else l }
      gave2("scale2", flat(p), pmul(p, H2))
    }
  }

  // two ordinary values of every stage: a function that differs on those, while the hashes are right,
  // has another contract and is not one of the stages
  action initStages = {
    nondet a = 0.to(Q - 1).oneOf()
    nondet b = 0.to(Q - 1).oneOf()
    nondet n = 2.to(2^32).oneOf()
    val l = [[a, b], [b, a]].foldl([], (o, x) => {
      val s1 = swu([x[0]])
      val s2 = swu(x)
      val p = iso(s2)
      o.concat([x[0]]).concat(s1).concat(iso(s1)).concat(s2).concat(p).concat(psi(p)).concat(clear2(p)) })
    all { t' = [a, b], p1' = G1, p2' = pmul(G2, n), ev' = { op: "ordinary", i: l, r: [] } }
  }

  // the stages of the hashes, on field elements and points no message will be found for
  action stepStages = {
    nondet op = 0.to(9).oneOf()
    nondet kind = KINDS.oneOf()
    nondet kind2 = KINDS.oneOf()
    nondet c0 = COARSE.oneOf()
    nondet e0 = WORDS.oneOf()
    nondet tp = TOPQ.oneOf()
    nondet u = 0.to(Q - 1).oneOf()
    nondet dl = 0.to(9).oneOf()
    nondet k = 0.to(48).oneOf()
    val raw = pack([c0, e0, c0, u % B64, c0, tp]) % Q
    val near = md((Q - 1) / 2 - 3 + dl, Q)
    val a = if (k % 5 == 0) near else if (k % 5 == 1) md(dl - 4, Q) else element(kind, Q, RINV, raw, u, u, dl)
    val b = if (k % 7 == 0) near else if (k % 7 == 1) 0 else element(kind2, Q, RINV, raw, u, a, dl)
    val x = if (k < 8) [a, 0] else if (k < 16) [0, a] else [a, b]
    if (op <= 3) emit("swu1", [a], flat(swu([a])))
    else if (op == 4) { val p = swu([a])  emit("iso11", flat(p), flat(iso(p))) }
    else if (op == 5) { val p = swu(x)  emit("iso3", flat(p), flat(iso(p))) }
    else if (op <= 7) { val p = if (k < 20) p2 else if (k < 30) TORSION2[k % length(TORSION2)] else { val l = lift(x, B2, true)  if (l == []) p2 else l }
                        gave2("psi", flat(p), psi(p)) }
    else { val p = if (k < 20) p2 else if (k < 25) padd(p2, WILD2) else if (k < 30) padd(G2, TORSION2[k % length(TORSION2)]) else { val l = lift(x, B2, true)  if (l == []) p2 else l }
           emit("clear2", flat(p), flat(clear2(p))) }
  }

  val inv = and {
    onCurve(p1, B1), onCurve(p2, B2),
    (ev.op == "swu") implies onSwuCurve(ev.r.slice(1, 5)),
    (ev.op == "swEncode" and p2 != []) implies fgreater(py(p2)) == fgreater(t),
  }

  // the cofactors are the documented ones: they map every point into the subgroup
  run encodeTest = all {
    assert([1, 2, 3].indices().forall(i => pmul(pmul(padd(pmul(WILD1, i + 1), TORSION1[i]), H1), R) == [])),
    assert([1, 2, 3].indices().forall(i => pmul(pmul(padd(pmul(WILD2, i + 1), TORSION2[i]), H2), R) == [])),
    assert([1, 2, 3].indices().forall(i => pmul(clear1(padd(pmul(WILD1, i + 1), TORSION1[i])), R) == [])),
  }
}
