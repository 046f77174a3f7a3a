// Objects as independent values: a heap of live objects of every pointer-like type of the library.
// Each step is one call; it writes one object and leaves every other one, and every exported
// constant, as it was. Half of the time the object just made is the next one to be changed.
module m_values {
  import params.* from "./params"
  import num.* from "./num"
  import pools.* from "./pools"
  import tower.* from "./tower"
  import curveOver(P = Q).* from "./curve"
  import curve.* from "./curve"
  import h2c.* from "./h2c"

  type Event = { op: str, i: List[int], r: List[int] }
  // slots: 0-1 FRRepr, 2-3 FR, 4-5 Fq6, 6-7 Fq12, 8-9 G1 affine, 10-11 G1 projective, 12-13 G2 affine,
  // 14-15 G2 projective, 16 and 17 secret keys, 18-19 keys in G1, 20-21 signatures in G2,
  // 22-23 keys in G2, 24-25 signatures in G1, 26 prepared G2 point, 27-28 Fq2, 29-30 Fq, 31-32 FQRepr
  var obj: List[List[int]]
  var last: int
  var choice: List[int]          // how the step before chose its call
  var ev: Event

  pure val NSLOT = 33
  pure def kindOf(d: int): int = if (d < 16) d / 2 else if (d < 18) 8 else if (d < 20) 9 else if (d < 22) 10
    else if (d < 24) 11 else if (d < 26) 12 else if (d < 27) 13 else if (d < 29) 14 else if (d < 31) 15 else 16
  pure def flat(p: List[int]): List[int] = if (p == []) [1] else [0].concat(p)

  // the exported constants, in the order in which the driver reads them: numbers and points
  pure val CONSTS: List[int] =
    [0, 1, Q, 2^768 % Q, R, 2^256 % R, 2^512 % R, 4].concat([4, 4]).concat(zero(2)).concat(one(2))
    .concat(zero(6)).concat(one(6)).concat(zero(12)).concat(one(12))
    .concat([1]).concat(flat(G1)).concat([1]).concat(flat(G1))
    .concat([1]).concat(flat(G2)).concat([1]).concat(flat(G2))

  action init = all {
    obj' = [[0], [1], [0], [1], zero(6), one(6), zero(12), one(12), [], G1, [], G1, [], G2, [], G2, [1], [2],
            [], G1, [], G2, [], G2, [], G1, G2, [0, 0], [1, 0], [0], [1], [0], [1]],
    last' = 0, choice' = [],
    ev' = { op: "constants", i: CONSTS, r: [] },
  }

  action write(d: int, x: List[int], o: str, ins: List[int]): bool =
    all { obj' = obj.replaceAt(d, x), last' = d, ev' = { op: o, i: [d].concat(ins), r: [] } }
  action emit(o: str, ins: List[int]): bool = all { obj' = obj, last' = last, ev' = { op: o, i: ins, r: [] } }

  // the other object of the same kind, if there is one
  pure def twin(d: int): int =
    if (d == 16 or d == 17 or d == 26) d else if (d < 26) (if (d % 2 == 0) d + 1 else d - 1) else if (d % 2 == 1) d + 1 else d - 1

  action step = {
    nondet bias = 0.to(1).oneOf()
    nondet rd = 0.to(NSLOT - 1).oneOf()
    nondet s0 = 0.to(1).oneOf()
    nondet t0 = 0.to(1).oneOf()
    nondet op0 = 0.to(17).oneOf()
    nondet k0 = 0.to(9).oneOf()
    nondet style0 = 0.to(3).oneOf()
    nondet u0 = 0.to(Q - 1).oneOf()
    nondet w0 = 0.to(Q - 1).oneOf()
    nondet probe0 = 0.to(27).oneOf()
    nondet blen0 = 0.to(60).oneOf()
    nondet again = 0.to(7).oneOf()
    // now and then the same call is made twice, for two objects
    val c = if (again == 0 and choice != []) choice.replaceAt(0, twin(choice[0]))
            else [if (bias == 1) last else rd, s0, t0, op0, k0, style0, u0, w0, probe0, blen0]
    all { choice' = c, act(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9]) }
  }
  action act(d: int, s: int, t: int, op: int, k: int, style: int, u: int, w: int, probe: int, blen: int): bool = {
    val ty = kindOf(d)
    val y = obj[d]
    // numbers: 0 and 1 and the values next to the moduli more often than others
    val small = if (k < 3) k else if (k == 3) R - 1 else if (k == 4) u % 2^64 else u % R
    val fe = if (k < 2) k else if (k == 2) Q - 1 else if (k < 5) w % 2^64 else u
    val fe2 = if (k < 2) [k, 0] else if (k == 2) [0, 1] else if (k == 3) [fe, 0] else [u, w]
    // buffers of any length up to 60 bytes
    val buf = if (style < 2) toBytes(small % 2^(8 * k + 1), k) else toBytes((u * 2^384 + w) % 2^(8 * blen), blen)
    // an even number of many words
    val huge = (u + 2^380) * 2^(blen * 8 + k)
    val rp = obj[s]
    val el = obj[2 + s]
    if (probe == 0) emit("verify", [s, t, style])
    else if (probe == 1 and style < 2) emit("pairing", [s, t, op % 6])
    else if (ty == 0) {
      val n = y[0]
      val x = rp[0]
      if (op <= 2) write(d, [if (style == 3) u % 2^256 else small], "reprSet", [style, if (style == 3) u % 2^256 else small])
      else if (op <= 4) write(d, rp, "reprCopy", [s])
      else if (op <= 7) write(d, el, "reprOfFR", [s])
      else if (op == 8) write(d, [n / 2^(k * 7)], "reprRsh", [k * 7])
      else if (op == 9) write(d, [n * 2^(k * 7) % 2^256], "reprLsh", [k * 7])
      else if (op == 10) write(d, [n / 2], "reprDiv2", [])
      else if (op == 11) write(d, [n * 2 % 2^256], "reprMul2", [])
      else if (op <= 13) write(d, [(n + x) % 2^256], "reprAdd", [s])
      else if (op <= 15) write(d, [md(n - x, 2^256)], "reprSub", [s])
      else write(d, obj[16 + s], "reprOfKey", [s])
    }
    else if (ty == 1) {
      val n = y[0]
      val x = el[0]
      if (op <= 1) (if (rp[0] < R) write(d, rp, "frOfRepr", [s]) else emit("frOfRepr", [d, s]))
      else if (op == 2) write(d, el, "frCopy", [s])
      else if (op == 3) write(d, [(n + x) % R], "frAdd", [s])
      else if (op == 4) write(d, [md(n - x, R)], "frSub", [s])
      else if (op <= 6) write(d, [n * x % R], "frMul", [s])
      else if (op == 7) write(d, [md(-n, R)], "frNeg", [])
      else if (op == 8) write(d, [n * 2 % R], "frDouble", [])
      else if (op == 9) write(d, [n * n % R], "frSquare", [])
      else if (op == 10) write(d, [powmod(x, obj[t][0], R)], "frExp", [s, t])
      else if (op == 11) (if (x == 0) emit("frInverse", [d, s]) else write(d, [invmod(x, R)], "frInverse", [s]))
      // the root of a square, then its square: the element itself
      else if (op == 12) (if (x == 0 or powmod(x, (R - 1) / 2, R) == 1) write(d, [x], "frSqrt", [s]) else emit("frSqrt", [d, s]))
      else if (op == 13) write(d, [x * obj[t][0] % R], "frMulBits", [s, t])
      else if (op == 14) write(d, [x * bitsReversed(buf, R) % R], "frMulBytes", [s].concat(buf))
      else if (op == 15) write(d, [bitsReversed(buf, R)], "frHash", buf)
      else write(d, obj[16 + s], "frOfKey", [s])
    }
    else if (ty == 2) {
      val x = obj[4 + s]
      if (op == 0) { val l = fe2.concat(obj[27 + s]).concat(obj[27 + t])  write(d, l, "f6Set", [s, t].concat(fe2)) }
      else if (op <= 2) write(d, if (style < 2) zero(6) else one(6), "f6Const", [if (style < 2) 0 else 1])
      else if (op <= 4) write(d, x, "f6Copy", [s])
      else if (op == 5) write(d, add(y, x), "f6Add", [s])
      else if (op == 6) write(d, sub(y, x), "f6Sub", [s])
      else if (op <= 8) write(d, mul(y, x), "f6Mul", [s])
      else if (op == 9) write(d, neg(y), "f6Neg", [])
      else if (op == 10) write(d, add(y, y), "f6Double", [])
      else if (op == 11) write(d, mul(y, y), "f6Square", [])
      else if (op == 12) write(d, if (isZero(y)) y else invEl(y), "f6Inverse", [])
      else if (op == 13) write(d, frob(y, k), "f6Frob", [k])
      else if (op == 14) write(d, pow(x, k), "f6Exp", [s, k])
      else if (op == 15) write(d, mul(y, NONRES6), "f6Nonres", [])
      else if (op == 16) write(d, mul(y, sparse6([0, 0], obj[27 + s])), "f6By1", [s])
      else write(d, mul(y, sparse6(obj[27 + s], obj[27 + t])), "f6By01", [s, t])
    }
    else if (ty == 3) {
      val x = obj[6 + s]
      if (op <= 2) write(d, obj[4 + s].concat(obj[4 + t]), "f12New", [s, t])
      else if (op == 3) write(d, if (style < 2) zero(12) else one(12), "f12Const", [if (style < 2) 0 else 1])
      else if (op == 4) write(d, x, "f12Copy", [s])
      else if (op == 5) write(d, add(y, x), "f12Add", [s])
      else if (op == 6) write(d, sub(y, x), "f12Sub", [s])
      else if (op <= 8) write(d, mul(y, x), "f12Mul", [s])
      else if (op == 9) write(d, neg(y), "f12Neg", [])
      else if (op == 10) write(d, add(y, y), "f12Double", [])
      else if (op == 11) write(d, mul(y, y), "f12Square", [])
      else if (op == 12) write(d, if (isZero(y)) y else invEl(y), "f12Inverse", [])
      else if (op == 13) write(d, frob(y, k), "f12Frob", [k])
      else if (op == 14) write(d, pow(x, k), "f12Exp", [s, k])
      else if (op == 15) write(d, y.slice(0, 6).concat(neg(y.slice(6, 12))), "f12Conj", [])
      else if (op == 16) write(d, mul(y, sparse12(obj[27 + s], obj[27 + t], obj[27])), "f12By014", [s, t])
      // the pairing with the identity, the empty product, the power of one
      else write(d, one(12), "f12Unit", [k % 5, s])
    }
    else if (ty == 4 or ty == 6) {
      val g = if (ty == 4) 0 else 1
      val b = 8 + 4 * g
      val x = obj[b + s]
      if (op <= 1) write(d, [], "affZero", [])
      else if (op == 2) write(d, if (g == 0) G1 else G2, "affOne", [])
      else if (op <= 4) write(d, x, "affCopy", [s])
      else if (op <= 7) write(d, pneg(y), "affNeg", [])
      else if (op <= 9) { val p = if (style == 0) [] else if (style == 1) obj[b + t] else padd(obj[b + t], if (g == 0) G1 else G2)
                          write(d, p, "affRaw", flat(p)) }
      else if (op <= 13) write(d, obj[b + 2 + s], "affOfProj", [s])
      else if (op == 14) write(d, x, "affDecompress", [s])
      else if (op == 15) write(d, x, "affFromX", [s])
      else if (op == 16) (if (g == 0) write(d, clear1(x), "affClear", [s]) else write(d, [], "affEncodeZero", []))
      else write(d, obj[(if (g == 0) (if (style < 2) 18 else 24) else (if (style < 2) 22 else 20)) + s], "affOfObj", [if (style < 2) 0 else 1, s])
    }
    else if (ty == 5 or ty == 7) {
      val g = if (ty == 5) 0 else 1
      val b = 10 + 4 * g
      val x = obj[b + s]
      val z = obj[b + t]
      if (op == 0) write(d, [], "projZero", [])
      else if (op == 1) write(d, if (g == 0) G1 else G2, "projOne", [])
      else if (op <= 3) write(d, x, "projCopy", [s])
      else if (op <= 6) (if (g == 0) write(d, pneg(y), "projNeg", []) else write(d, padd(x, x), "projDouble", [s]))
      else if (op <= 8) write(d, obj[b - 2 + s], "projOfAff", [s])
      else if (op == 9) write(d, padd(x, x), "projDouble", [s])
      else if (op <= 11) write(d, padd(x, z), "projAdd", [s, t])
      else if (op <= 13) write(d, padd(x, obj[b - 2 + t]), "projAddAff", [s, t])
      else if (op == 14) write(d, pmul(x, k), "projMul", [s, style, k])
      else if (op == 15) (if (g == 1 and style < 2) write(d, pmul(obj[b - 2 + s], huge), "projMulBig", [s, huge])
                         else write(d, pmul(obj[b - 2 + s], k), "projMulAff", [s, style, k]))
      else write(d, obj[(if (g == 0) (if (style < 2) 18 else 24) else (if (style < 2) 22 else 20)) + s], "projOfObj", [if (style < 2) 0 else 1, s])
    }
    else if (ty == 8) (if (rp[0] < R) write(d, rp, "keyOfRepr", [s, style]) else emit("keyOfRepr", [d, s, style]))
    else if (ty <= 12) {
      // keys and signatures
      val g = if (ty == 9 or ty == 12) 0 else 1
      val b = if (ty == 9) 18 else if (ty == 10) 20 else if (ty == 11) 22 else 24
      val x = obj[b + s]
      val z = obj[b + t]
      val af = obj[8 + 4 * g + s]
      if (op <= 1) write(d, [], "objBlank", [])
      else if (op <= 4) write(d, af, "objOfAff", [s])
      else if (op <= 6) write(d, x, "objCopy", [s])
      else if (op <= 9) write(d, padd(y, x), "objAggregate", [s])
      else if (op <= 11) write(d, x, "objList", [s])
      else if (op == 12) write(d, padd(x, z), "objList", [s, t])
      else if (op == 13) write(d, padd(padd(x, z), x), "objList", [s, t, s])
      else if (op <= 15) write(d, x, "objPass", [s])
      else if ((ty == 9 or ty == 11) and style == 0) write(d, pmul(if (ty == 9) G1 else G2, obj[if (ty == 9) 16 else 17][0]), "objPublic", [])
      else write(d, [], "objList", [])
    }
    else if (ty == 13) write(d, obj[12 + s], "prepare", [s])
    else if (ty == 14) {
      val x = obj[27 + s]
      if (op <= 3) write(d, fe2, "f2Set", fe2)
      else if (op <= 5) write(d, x, "f2Copy", [s])
      else if (op <= 7) write(d, add2(y, x), "f2Add", [s])
      else if (op <= 9) write(d, mul2(y, x), "f2Mul", [s])
      else if (op == 10) write(d, neg(y), "f2Neg", [])
      else if (op == 11) write(d, if (isZero(x)) x else inv2(x), "f2Inverse", [s])
      else if (op == 12) write(d, mul2(x, x), "f2SqrtOfSquare", [s])
      else if (op == 13) write(d, mul2(y, y), "f2Square", [])
      else if (op == 14) write(d, frob(y, k), "f2Frob", [k])
      else if (op == 15) write(d, pow(x, k), "f2Exp", [s, k])
      else write(d, [obj[29 + s][0], obj[29 + t][0]], "f2New", [s, t])
    }
    else if (ty == 15) {
      val x = obj[29 + s][0]
      if (op <= 3) write(d, [fe], "fqSet", [fe])
      else if (op <= 5) write(d, [x], "fqCopy", [s])
      else if (op <= 7) write(d, [(y[0] + x) % Q], "fqAdd", [s])
      else if (op <= 9) write(d, [y[0] * x % Q], "fqMul", [s])
      else if (op <= 11) write(d, [md(-y[0], Q)], "fqNeg", [])
      else if (op == 12) write(d, [invmod(x, Q)], "fqInverse", [s])
      else if (op == 13) write(d, [powmod(x, obj[31 + t][0] % 2^64, Q)], "fqExp", [s, t])
      else if (op == 14) write(d, [x * obj[31 + t][0] % Q], "fqMulBits", [s, t])
      else write(d, [if (obj[31 + s][0] < Q) obj[31 + s][0] else 0], "fqOfRepr", [s])
    }
    else {
      val x = obj[31 + s][0]
      if (op <= 3) write(d, [if (style == 3) w * 7 % 2^384 else fe], "qreprSet", [style, if (style == 3) w * 7 % 2^384 else fe])
      else if (op <= 5) write(d, [x], "qreprCopy", [s])
      else if (op <= 7) write(d, obj[29 + s], "qreprOfFQ", [s])
      else if (op <= 9) write(d, [(y[0] + x) % 2^384], "qreprAdd", [s])
      else if (op <= 11) write(d, [md(y[0] - x, 2^384)], "qreprSub", [s])
      else if (op == 12) write(d, [y[0] / 2^(k * 7)], "qreprRsh", [k * 7])
      else if (op == 13) write(d, [y[0] * 2^(k * 7) % 2^384], "qreprLsh", [k * 7])
      else write(d, rp, "qreprOfRepr", [s])
    }
  }
  pure def add2(x: List[int], y: List[int]): List[int] = [(x[0] + y[0]) % Q, (x[1] + y[1]) % Q]

  // one call writes one object
  val inv = and {
    obj[0][0] < 2^256, obj[1][0] < 2^256, obj[2][0] < R, obj[3][0] < R,
    range(8, 12).concat([18, 19, 24, 25]).foldl(true, (acc, i) => acc and onCurve(obj[i], B1)),
    range(12, 16).concat([20, 21, 22, 23, 26]).foldl(true, (acc, i) => acc and onCurve(obj[i], B2)),
  }
}
