// The pairing: the cube of the reduced ate pairing, in exponents of its value at the generators.
module pairing {
  import params.* from "./params"
  import num.* from "./num"
  import tower.* from "./tower"
  import curve.* from "./curve"

  // the value at the two generators; pairingTest derives it from the definition
  pure val GT: List[int] = [
    0x1250ebd871fc0a92a7b2d83168d0d727272d441befa15c503dd8e90ce98db3e7b6d194f60839c508a84305aaca1789b6,
    0x89a1c5b46e5110b86750ec6a532348868a84045483c92b7af5af689452eafabf1a8943e50439f1d59882a98eaa0170f,
    0x1368bb445c7c2d209703f239689ce34c0378a68e72a6b3b216da0e22a5031b54ddff57309396b38c881c4c849ec23e87,
    0x193502b86edb8857c273fa075a50512937e0794e1e65a7617c90d8bd66065b1fffe51d7a579973b1315021ec3c19934f,
    0x1b2f522473d171391125ba84dc4007cfbf2f8da752f7c74185203fcca589ac719c34dffbbaad8431dad1c1fb597aaa5,
    0x18107154f25a764bd3c79937a45b84546da634b8f6be14a8061e55cceba478b23f7dacaa35c8ca78beae9624045b4b6,
    0x19f26337d205fb469cd6bd15c3d5a04dc88784fbb3d0b2dbdea54d43b2b73f2cbb12d58386a8703e0f948226e47ee89d,
    0x6fba23eb7c5af0d9f80940ca771b6ffd5857baaf222eb95a7d2809d61bfe02e1bfd1b68ff02f0b8102ae1c2d5d5ab1a,
    0x11b8b424cd48bf38fcef68083b0b0ec5c81a93b330ee1a677d0d15ff7b984e8978ef48881e32fac91b93b47333e2ba57,
    0x3350f55a7aefcd3c31b4fcb6ce5771cc6a0e9786ab5973320c806ad360829107ba810c5a09ffdd9be2291a0c25a99a2,
    0x4c581234d086a9902249b64728ffd21a189e87935a954051c7cdba7b3872629a4fafc05066245cb9108f0242d0fe3ef,
    0xf41e58663bf08cf068672cbd01a7ec73baca4d72ca93544deff686bfd6df543d48eaa24afe47e1efde449383b676631]

  // final exponentiation: the power 3 (q^12 - 1) / r, in two steps; x is not zero
  pure val HARD = 3 * (Q^4 - Q^2 + 1) / R
  pure def finalExp(x: El): El = {
    val y = mul(frob(x, 6), invEl(x))
    pow(mul(frob(y, 2), y), HARD)
  }
  pure def gtPow(e: int): El = pow(GT, md(e, R))

  // ---- the definition: the twisted curve embedded into the curve over Fq12 by (x / w^2, y / w^3) ----
  pure def embed(c: int): El = zero(12).replaceAt(0, c)
  pure def embed2(c: El): El = c.concat(zero(12).slice(2, 12))
  pure val W: El = zero(12).replaceAt(6, 1)
  pure val UNTWIST: (El, El) = (invEl(mul(W, W)), invEl(mul(W, mul(W, W))))
  // the slope of the chord or tangent
  pure def slope(t: (El, El), s: (El, El)): El =
    if (t == s) mul(scale(mul(t._1, t._1), 3), invEl(scale(t._2, 2)))
    else mul(sub(s._2, t._2), invEl(sub(s._1, t._1)))
  pure def third(t: (El, El), s: (El, El), l: El): (El, El) = {
    val x = sub(sub(mul(l, l), t._1), s._1)
    (x, sub(mul(l, sub(t._1, x)), t._2))
  }
  // the function with divisor X (Q) - (X Q) - (X - 1) (O) at P (vertical lines left out: they vanish in the final exponentiation)
  pure def miller(p: List[int], q: List[int]): El = {
    val qq = (mul(embed2(q.slice(0, 2)), UNTWIST._1), mul(embed2(q.slice(2, 4)), UNTWIST._2))
    val x = embed(p[0])
    val y = embed(p[1])
    val n = bitlen(X)
    range(1, n).foldl((one(12), qq), (s, i) => {
      val t = s._2
      val l = slope(t, t)
      val f = mul(mul(s._1, s._1), sub(sub(y, t._2), mul(l, sub(x, t._1))))
      val d = third(t, t, l)
      if (bit(X, n - 1 - i)) {
        val m = slope(d, qq)
        (mul(f, sub(sub(y, d._2), mul(m, sub(x, d._1)))), third(d, qq, m))
      } else (f, d)
    })._1
  }
  // the curve parameter is -X: the inverse, which the final exponentiation lets us take as a conjugate
  pure def pairingOf(p: List[int], q: List[int]): El = finalExp(frob(miller(p, q), 6))

  run pairingTest = all {
    assert((3 * (Q^4 - Q^2 + 1)) % R == 0 and (Q^12 - 1) % R == 0),
    assert(HARD == Q^3 * (X + 1)^2 - Q^2 * X * (X + 1)^2 + Q * (X^4 + 2 * X^3 - 2 * X - 1) - X^5 - 2 * X^4 + 2 * X^2 + X + 3),
    assert(pairingOf(G1, G2) == GT),
    assert(GT != one(12) and pow(GT, R) == one(12)),
  }
}
