// Concurrent use: processes that share read-only objects (keys, messages, signatures, points,
// prepared points, field elements) and own one accumulator of each kind. A behaviour is an
// interleaving of the processes' calls; a call's result depends on the shared objects and the
// caller's own accumulators alone, so every process sees the results of its calls made alone.
module m_conc {
  import params.* from "./params"
  import num.* from "./num"
  import tower.* from "./tower"
  import curveOver(P = Q) as c from "./curve"
  import curve.* from "./curve"
  import codec.* from "./codec"
  import h2c.* from "./h2c"
  import pairing.* from "./pairing"

  type Event = { op: str, i: List[int], r: List[int] }
  // shared, never written after the first state: keys, messages and their images, signatures
  // (key i signs message i), exponents and points, scalars, elements
  var sk: List[int]
  var msg: List[List[int]]
  var img1: List[List[int]]
  var img2: List[List[int]]
  var imgD: List[List[int]]
  var sig1: List[List[int]]    // g1pubs: signatures in G2
  var sig2: List[List[int]]    // g2pubs: signatures in G1
  var sigD: List[List[int]]
  var ex: List[int]
  var pt1: List[List[int]]
  var pt2: List[List[int]]
  var el: List[int]
  var f12: List[List[int]]
  // owned by the processes
  var own: List[{ x: int, f: List[int], p: List[int], q: List[int] }]
  var ev: Event

  pure val NP = 6
  pure val DOM: List[int] = [1, 2, 3, 4, 5, 6, 7, 8]
  pure def b2i(b: bool): int = if (b) 1 else 0
  pure def flat(p: List[int]): List[int] = if (p == []) [1] else [0].concat(p)
  pure def sumPts(l: List[List[int]]): List[int] = l.foldl([], (acc, x) => c::padd(acc, x))

  action init = {
    nondet u = 0.to(2^255 - 1).oneOf()
    nondet w = 0.to(Q - 1).oneOf()
    val k = [1, u % R, md(-u, R)]
    val m = [toBytes(u, 32), toBytes(u + 1, 32), toBytes(w % 2^256, 32)]
    val a1 = m.foldl([], (l, x) => l.append(hash1(x)))
    val a2 = m.foldl([], (l, x) => l.append(hash2(x)))
    val ad = m.foldl([], (l, x) => l.append(hashDomain(x, DOM)))
    val e = [0, 1, w % 1000, R - 1 - w % 100]
    all {
      sk' = k, msg' = m, img1' = a1, img2' = a2, imgD' = ad,
      sig1' = range(0, 3).foldl([], (l, i) => l.append(c::pmul(a2[i], k[i]))),
      sig2' = range(0, 3).foldl([], (l, i) => l.append(c::pmul(a1[i], k[i]))),
      sigD' = range(0, 3).foldl([], (l, i) => l.append(c::pmul(ad[i], k[i]))),
      ex' = e, pt1' = e.foldl([], (l, x) => l.append(c::pmul(G1, x))), pt2' = e.foldl([], (l, x) => l.append(c::pmul(G2, x))),
      el' = [0, R - 1, u % R], 
      f12' = [GT, range(0, 12).foldl([], (l, i) => l.append(w * (i + 3) % Q))],
      own' = range(0, NP).foldl([], (l, _i) => l.append({ x: 1, f: one(12), p: G1, q: G2 })),
      ev' = { op: "init", i: [], r: [] },
    }
  }

  action emit(o: str, ins: List[int], res: List[int]): bool = all {
    sk' = sk, msg' = msg, img1' = img1, img2' = img2, imgD' = imgD, sig1' = sig1, sig2' = sig2, sigD' = sigD, ex' = ex,
    pt1' = pt1, pt2' = pt2, el' = el, f12' = f12, own' = own, ev' = { op: o, i: ins, r: res } }
  action mine(p: int, o: { x: int, f: List[int], p: List[int], q: List[int] }, nm: str, ins: List[int], res: List[int]): bool = all {
    sk' = sk, msg' = msg, img1' = img1, img2' = img2, imgD' = imgD, sig1' = sig1, sig2' = sig2, sigD' = sigD, ex' = ex,
    pt1' = pt1, pt2' = pt2, el' = el, f12' = f12, own' = own.replaceAt(p, o), ev' = { op: nm, i: ins, r: res } }

  // the process's next call
  action step = {
    nondet p = 0.to(NP - 1).oneOf()
    nondet i = 0.to(2).oneOf()
    nondet j = 0.to(2).oneOf()
    nondet k = 0.to(3).oneOf()
    nondet l = 0.to(3).oneOf()
    nondet s = 0.to(2).oneOf()
    nondet style = 0.to(2).oneOf()
    nondet u = 0.to(2^256 - 1).oneOf()
    nondet op = 0.to(45).oneOf()
    val o = own[p]
    val ss = if (style < 2) i else s
    val mm = if (style < 1) i else j
    if (op <= 1) emit("sign1", [p, i, j], compress(c::pmul(img2[j], sk[i]), 2))
    else if (op <= 3) emit("sign2", [p, i, j], compress(c::pmul(img1[j], sk[i]), 1))
    else if (op == 4) emit("signD", [p, i, j], compress(c::pmul(imgD[j], sk[i]), 2))
    else if (op <= 7) emit("verify1", [p, i, mm, ss], [b2i(sig1[ss] == c::pmul(img2[mm], sk[i]))])
    else if (op <= 10) emit("verify2", [p, i, mm, ss], [b2i(sig2[ss] == c::pmul(img1[mm], sk[i]))])
    else if (op == 11) emit("verifyD", [p, i, mm, ss], [b2i(sigD[ss] == c::pmul(imgD[mm], sk[i]))])
    // all three keys and messages in the given order, with the sum of all signatures or of two of them
    else if (op == 12) emit("aggregate1", [p, i, style], [b2i(style < 2)])
    else if (op == 13) emit("aggregate2", [p, i, style], [b2i(style < 2)])
    else if (op == 14) emit("aggregateD", [p, i, style], [b2i(style < 2)])
    else if (op == 15) emit("common1", [p, j, i], [b2i(sk[i] * 3 % R == (sk[i] + sk[j] + sk[i]) % R)])
    else if (op == 16) emit("common2", [p, j, i], [b2i(sk[i] * 3 % R == (sk[i] + sk[j] + sk[i]) % R)])
    else if (op == 17) emit("hash1", [p, j], flat(img1[j]))
    else if (op == 18) emit("hash2", [p, j], flat(img2[j]))
    else if (op == 19) emit("hashD", [p, j], flat(imgD[j]))
    else if (op == 20) emit("secret", [p, j], [hashSecret(msg[j])])
    else if (op == 21) emit("public1", [p, i], flat(c::pmul(G1, sk[i])))
    else if (op == 22) emit("public2", [p, i], flat(c::pmul(G2, sk[i])))
    else if (op <= 24) emit("pair", [p, k, l, style], gtPow(ex[k] * ex[l]))
    else if (op <= 26) emit("miller", [p, k, l, i], gtPow(ex[k] * ex[l] + ex[i] * ex[k] + ex[l] * ex[i]))
    else if (op == 27) emit("compare", [p, k, l], [b2i(ex[k] * ex[l] % R == ex[l] * ex[k] % R)])
    else if (op == 28) emit("compress", [p, k], compress(pt1[k], 1).concat(compress(pt2[k], 2)))
    else if (op == 29) emit("decompress", [p, k], flat(pt1[k]).concat(flat(pt2[k])))
    else if (op == 30) emit("raw", [p, k], flat(pt1[k]).concat(flat(pt2[k])))
    else if (op == 31) { val x = c::pmul(pt1[k], el[i])  emit("mul1", [p, k, i, style], flat(x)) }
    else if (op == 32) { val x = c::pmul(pt2[k], el[i])  emit("mul2", [p, k, i, style], flat(x)) }
    else if (op == 33) { val x = c::padd(o.p, pt1[k])  mine(p, o.with("p", x), "add1", [p, k, style], flat(x)) }
    else if (op == 34) { val x = c::padd(o.q, pt2[k])  mine(p, o.with("q", x), "add2", [p, k, style], flat(x)) }
    else if (op == 35) { val x = c::pneg(o.p)  mine(p, o.with("p", x), "neg1", [p], flat(x)) }
    else if (op <= 37) { val x = if (style == 0) (o.x + el[i]) % R else if (style == 1) md(o.x - el[i], R) else o.x * (el[i] + 1) % R
                         mine(p, o.with("x", x), "fr", [p, i, style], [x]) }
    else if (op == 38) { val x = powmod(el[i], u, R)  emit("exp", [p, i, u], [x, if (el[i] == 0) 0 else invmod(el[i], R)]) }
    else if (op == 39) { val y = if (style == 0) add(o.f, f12[i % 2]) else if (style == 1) mul(o.f, f12[i % 2]) else frob(o.f, i)
                         mine(p, o.with("f", y), "f12", [p, i, style], y) }
    else if (op == 40) { val x = invEl(f12[i % 2])  emit("inverse", [p, i], x.concat(mul(f12[0], f12[1]))) }
    else if (op == 41) emit("order", [p, k, l], [1, 1, b2i(pt1[k] == []), b2i(pt2[k] == pt2[l])])
    else if (op == 42) { val t = [md(u, Q), u % 3]
                         emit("encode", [p].concat(t), flat(swEncode(t, S3))) }
    else if (op == 43) { val t = [md(u, Q), u % 3]
                         emit("root", [p].concat(t), [b2i(c::isSquare(t)), b2i(c::isSquare([u]))]) }
    else if (op == 44) emit("keys", [p, i, u], toBytes(sk[i], 32).concat([if (u < R) 1 else 0]))
    else emit("sums", [p, i, j], flat(c::padd(c::padd(sig1[i], sig1[j]), sig1[i])).concat(flat(c::padd(c::padd(sig2[i], sig2[j]), sig2[i])))
              .concat(flat(c::pmul(G1, (sk[i] + sk[j]) % R))).concat(flat(c::pmul(G2, (sk[i] + sk[j]) % R))))
  }

  // the processes' accumulators stay in their groups, whatever the others do
  val inv = own.indices().forall(i => c::onCurve(own[i].p, B1) and c::onCurve(own[i].q, B2) and own[i].x < R)
}
