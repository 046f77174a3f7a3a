// Hashing to the curves and to the scalar field, and the older encodings.
module h2c {
  import params.* from "./params"
  import num.* from "./num"
  import sha256.* from "./sha256"
  import isogeny.* from "./isogeny"
  import curveOver(P = Q).* from "./curve"
  import curve.* from "./curve"

  // ---- hash_to_field: the two-block expansion number i over the hashed and counted message ----
  pure def expand(prime: List[int], i: int): int =
    fromBytes(sha(prime.concat([i, 1])).concat(sha(prime.concat([i, 2]))))
  // the field elements for counters 0 and 1 of a message
  pure def toField(msg: List[int], deg: int): List[List[int]] = {
    val h = sha([1].concat(msg))
    [0, 1].foldl([], (l, ctr) => l.append(range(1, deg + 1).foldl([], (e, i) => e.append(expand(h.append(ctr), i) % Q))))
  }
  pure def hashSecret(seed: List[int]): int = expand(sha(seed).append(0), 1) % R

  // ---- simplified SWU map to y^2 = x^3 + A x + B ----
  pure val XI1: List[int] = [Q - 1]
  pure val A1: List[int] = [0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d]
  pure val E1: List[int] = [0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0]
  pure val XI2: List[int] = [1, 1]
  pure val A2: List[int] = [0, 240]
  pure val E2: List[int] = [1012, 1012]

  pure def g(x: List[int], a: List[int], b: List[int]): List[int] = fadd(fmul(fadd(fmul(x, x), a), x), b)
  pure def sameSign(y: List[int], t: List[int]): List[int] = if (fgreater(y) == fgreater(t)) y else fneg(y)
  pure def swuWith(t: List[int], xi: List[int], a: List[int], b: List[int]): List[int] = {
    val s = fmul(xi, fmul(t, t))
    val c = fadd(fmul(s, s), s)
    val x0 = if (fzero(c)) fmul(b, finv(fmul(xi, a)))
             else fmul(fmul(fneg(b), finv(a)), fadd(fpow(a, 0), finv(c)))
    val x = if (isSquare(g(x0, a, b))) x0 else fmul(s, x0)
    x.concat(sameSign(fsqrt(g(x, a, b)), t))
  }
  pure def swu(t: List[int]): List[int] =
    if (length(t) == 1) swuWith(t, XI1, A1, E1) else swuWith(t, XI2, A2, E2)
  pure def onSwuCurve(p: List[int]): bool =
    fmul(py(p), py(p)) == (if (length(p) == 2) g(px(p), A1, E1) else g(px(p), A2, E2))

  // ---- the isogenies ----
  pure def evalPoly(cs: List[List[int]], x: List[int]): List[int] =
    range(0, length(cs)).foldl(fscale(x, 0), (acc, i) => fadd(fmul(acc, x), cs[length(cs) - 1 - i]))
  pure def isoWith(p: List[int], xn: List[List[int]], xd: List[List[int]], yn: List[List[int]], yd: List[List[int]]): List[int] = {
    val x = px(p)
    fmul(evalPoly(xn, x), finv(evalPoly(xd, x))).concat(fmul(py(p), fmul(evalPoly(yn, x), finv(evalPoly(yd, x)))))
  }
  pure def iso(p: List[int]): List[int] =
    if (p == []) [] else if (length(p) == 2) isoWith(p, XNUM11, XDEN11, YNUM11, YDEN11) else isoWith(p, XNUM3, XDEN3, YNUM3, YDEN3)

  // ---- clearing the cofactor ----
  pure def clear1(p: List[int]): List[int] = pmul(p, X + 1)
  // untwist, Frobenius, twist: conjugation of the coordinates and multiplication by powers of 1/(1+u)
  pure val PSIX: List[int] = finv(fpow([1, 1], (Q - 1) / 3))
  pure val PSIY: List[int] = finv(fpow([1, 1], (Q - 1) / 2))
  pure def conj(x: List[int]): List[int] = [x[0], md(-x[1], Q)]
  pure def psi(p: List[int]): List[int] =
    if (p == []) [] else fmul(conj(px(p)), PSIX).concat(fmul(conj(py(p)), PSIY))
  pure def clear2(p: List[int]): List[int] =
    // (x^2 - x - 1) P + (x - 1) psi(P) + psi^2(2P) at the curve parameter x = -X
    padd(padd(pmul(p, X * X + X - 1), pneg(pmul(psi(p), X + 1))), psi(psi(pmul(p, 2))))

  pure def hash1(msg: List[int]): List[int] = {
    val ts = toField(msg, 1)
    clear1(iso(padd(swu(ts[0]), swu(ts[1]))))
  }
  pure def hash2(msg: List[int]): List[int] = {
    val ts = toField(msg, 2)
    clear2(iso(padd(swu(ts[0]), swu(ts[1]))))
  }

  // ---- the older hash with a domain: try and increment, greater y ----
  pure def firstX(x: List[int], n: int): List[int] =
    range(0, n).foldl((x, isSquare(rhs(x, B2))), (s, _i) =>
      if (s._2) s else { val z = fadd(s._1, [1, 0])  (z, isSquare(rhs(z, B2))) })._1
  pure def hashDomain(msg: List[int], dom: List[int]): List[int] = {
    val b = msg.concat(dom)
    val x = firstX([fromBytes(sha(b.append(1))), fromBytes(sha(b.append(2)))], 128)
    pmul(lift(x, B2, true), H2)
  }

  // ---- Shallue-van de Woestijne encoding to the twisted curve (Fouque-Tibouchi) ----
  // the root of -3 the library uses
  pure val S3: int = powmod(Q - 3, (Q + 1) / 4, Q)
  pure def swEncode(t: List[int], root3: int): List[int] =
    if (fzero(t)) []
    else {
      val d = fadd(fadd(fmul(t, t), B2), [1, 0])
      val greatest = fgreater(t)
      if (fzero(d)) (if (greatest) pneg(G2) else G2)
      else {
        val w = fmul(fscale(t, root3), finv(d))
        val x1 = fsub([(root3 - 1) * ((Q + 1) / 2) % Q, 0], fmul(t, w))
        val x2 = fsub([Q - 1, 0], x1)
        val x3 = fadd([1, 0], finv(fmul(w, w)))
        lift(if (isSquare(rhs(x1, B2))) x1 else if (isSquare(rhs(x2, B2))) x2 else x3, B2, greatest)
      }
    }

  // digests reduced to the prime fields: bytes in order, each from its lowest bit to its highest
  pure def bitsReversed(bs: List[int], m: int): int =
    bs.foldl(0, (acc, b) => digits(b, 1, 8).foldl(acc, (a, x) => (2 * a + x) % m))

  // the isogenies are homomorphisms into the curves; psi acts as the documented endomorphism
  run h2cTest = all {
    assert(range(0, 6).indices().forall(i => { val p = swu([i * 77 + 1])  onSwuCurve(p) and onCurve(iso(p), B1) })),
    assert(range(0, 6).indices().forall(i => { val p = swu([i * 77 + 1, i])  onSwuCurve(p) and onCurve(iso(p), B2) })),
    assert({ val p = swu([12345])  val q = swu([Q - 6789])  iso(padd(p, q)) == padd(iso(p), iso(q)) }),
    assert({ val p = swu([12345, 3])  val q = swu([Q - 6789, Q - 1])  iso(padd(p, q)) == padd(iso(p), iso(q)) }),
    assert(onSwuCurve(swu([0])) and onSwuCurve(swu([0, 0]))),
    assert(not(isSquare(XI1)) and not(isSquare(XI2))),
    // psi^2 - t psi + q = 0 with trace t = 1 - X on the twisted curve, on a point outside the subgroup
    assert({ val p = iso(swu([12345, 3]))
             padd(padd(psi(psi(p)), pmul(psi(p), X - 1)), pmul(p, Q)) == [] and pmul(p, R) != [] and pmul(clear2(p), R) == [] }),
    assert({ val p = iso(swu([12345])) pmul(p, R) != [] and pmul(clear1(p), R) == [] }),
    assert(S3 * S3 % Q == Q - 3),
  }
}
