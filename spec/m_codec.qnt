// Encoding and decoding of points and keys: two affine registers (any curve point) and a secret key.
// One step relation per property: compressed form, checked decoding, raw bytes, keys and signatures.
module m_codec {
  import params.* from "./params"
  import num.* from "./num"
  import pools.* from "./pools"
  import curveOver(P = Q).* from "./curve"
  import curve.* from "./curve"
  import torsion.* from "./torsion"
  import codec.* from "./codec"
  import rare.* from "./rare"

  const DEG: int

  type Event = { op: str, i: List[int], r: List[int] }
  var pt: List[List[int]]
  var sk: int
  var ev: Event

  pure val B = bOf(DEG)
  pure val G = if (DEG == 1) G1 else G2
  pure val NTOR = if (DEG == 1) length(TORSION1) else length(TORSION2)
  pure def torsion(i: int): List[int] = if (DEG == 1) TORSION1[i] else TORSION2[i]
  pure val EDGES = if (DEG == 1) EDGE1.concat(SHORT1) else EDGE2.concat(SHORT2)
  pure val SHORTS = if (DEG == 1) SMALLK1 else SMALLK2
  pure val WILD = if (DEG == 1) WILD1 else WILD2
  pure val RINV = invmod(RADQ, Q)
  pure val LEN = 48 * DEG
  pure val MASKS = Set(1, 2, 4, 8, 16, 32, 64, 128, 255, 224, 192, 96, 160)

  pure def b2i(b: bool): int = if (b) 1 else 0
  pure def flat(p: List[int]): List[int] = if (p == []) [1] else [0].concat(p)
  pure def xor8(a: int, b: int): int = { val x = digits(a, 1, 8)  val y = digits(b, 1, 8)
    range(0, 8).foldl(0, (s, i) => s + ((x[i] + y[i]) % 2) * 2^i) }

  action emit(o: str, ins: List[int], res: List[int]): bool =
    all { pt' = pt, sk' = sk, ev' = { op: o, i: ins, r: res } }
  action write(d: int, v: List[int], o: str, ins: List[int], res: List[int]): bool =
    all { pt' = pt.replaceAt(d, v), sk' = sk, ev' = { op: o, i: ins, r: res } }

  action init = all { pt' = [[], G], sk' = 1, ev' = { op: "init", i: [], r: [] } }

  // an x-coordinate value and the ways to write it on 48 bytes that are not canonical
  pure def fe(kind: int, w: List[int], u: int, dl: int): int =
    element(kind, Q, RINV, pack(w) % Q, u, u, dl)

  // points: the identity, multiples of the generator, torsion, wild points, edges of the sign rule, structured x
  pure def point(rel: int, x: List[int], k: int, t: int, f1: List[int]): List[int] =
    if (rel == 0) [] else if (rel == 1) pmul(G, k) else if (rel == 2) pneg(x) else if (rel == 3) padd(x, torsion(t % NTOR))
    else if (rel == 4) torsion(t % NTOR) else if (rel == 5) padd(pmul(G, k), torsion(t % NTOR)) else if (rel == 6) pmul(WILD, k % 65536)
    else if (rel == 7) pmul(WILD, R) else if (rel == 8) padd(x, WILD) else if (rel == 9) EDGES[t % length(EDGES)]
    else if (rel == 10) pneg(EDGES[t % length(EDGES)]) else if (rel == 11) { val l = lift(f1, B, k % 2 == 0) if (l == []) x else l }
    else if (rel == 12) padd(torsion(t % NTOR), torsion((t / 7) % NTOR)) else if (rel == 13) pmul(padd(x, WILD), R)
    else if (rel == 15) (if (x == []) [] else fscale(px(x), BETA).concat(py(x)))   // the same y, another x
    else if (rel == 16) pmul(G, SHORTS[t % length(SHORTS)])    // short coordinates in the subgroup
    else padd(x, pmul(G, k % 256))

  // a byte string: the canonical encoding of p, or one of the ways to be almost that
  pure def encoding(how: int, p: List[int], pos: int, mask: int, e: int, noise: int): List[int] = {
    val good = compress(p, DEG)
    if (how <= 6) good
    else if (how == 7) good.replaceAt(pos, xor8(good[pos], mask))
    else if (how == 8) good.replaceAt(0, xor8(good[0], mask))
    // the identity with something else set
    else if (how == 9) zeros(LEN).replaceAt(0, 192).replaceAt(pos, mask)
    else if (how == 10) zeros(LEN).replaceAt(0, 192 + mask % 64).replaceAt(pos, if (pos == 0) 192 + mask % 64 else noise % 2)
    // a coordinate plus a multiple of q, when that fits
    else if (how <= 13) {
      val hi = fromBytes(good.slice(0, 48)) % 2^381
      val lo = fromBytes(good.slice(LEN - 48, LEN))
      val flags = good[0] / 32 * 32
      if (DEG == 1 or how == 12) {
        val v = if (hi + Q < 2^381) hi + Q else if (how == 13) Q else hi
        val b = toBytes(v, 48).concat(good.slice(48, LEN))
        b.replaceAt(0, b[0] + flags)
      } else {
        val v = if (lo + Q * (1 + e % 8) < 2^384) lo + Q * (1 + e % 8) else lo
        good.slice(0, 48).concat(toBytes(v, 48))
      }
    }
    // x at or just around q, or with all bits set
    else if (how == 14) { val v = Q + e % 3 - 1
      val b = if (DEG == 1) toBytes(v, 48) else if (noise % 2 == 0) toBytes(v, 48).concat(good.slice(48, 96)) else toBytes(noise % Q, 48).concat(toBytes(v, 48))
      b.replaceAt(0, b[0] + 128 + 32 * (e % 2)) }
    else if (how == 15) toBytes(noise, LEN)
    else if (how == 16) { val b = toBytes(noise, LEN)  b.replaceAt(0, b[0] % 32 + 128) }
    else if (how == 17) toBytes(2^(8 * LEN) - 1 - e, LEN).replaceAt(0, 159 + 32 * (e % 2))
    // a small x, on the curve or not
    else { val b = toBytes(e, LEN)  b.replaceAt(0, 128 + 32 * (noise % 2)) }
  }

  action choose(act: (int, int, List[int], List[int], int, int, int) => bool): bool = {
    nondet d = 0.to(1).oneOf()
    nondet rel = 0.to(16).oneOf()
    nondet how = 0.to(18).oneOf()
    nondet kind = KINDS.oneOf()
    nondet c0 = COARSE.oneOf()
    nondet e0 = WORDS.oneOf()
    nondet tp = TOPQ.oneOf()
    nondet u = 0.to(Q - 1).oneOf()
    nondet u2 = 0.to(Q - 1).oneOf()
    nondet t = 0.to(48).oneOf()
    nondet pos = 0.to(LEN - 1).oneOf()
    nondet mask = MASKS.oneOf()
    nondet e = 0.to(30).oneOf()
    nondet op = 0.to(19).oneOf()
    val w = [c0, e0, c0, u % B64, c0, tp]
    val f1 = if (DEG == 1) [fe(kind, w, u2, e)] else [fe(kind, w, u2, e), if (e % 2 == 0) u else e % 3]
    val p = point(rel, pt[1 - d], if (e < 4) e else u % 2^48, t, f1)
    val enc = encoding(how, p, if (t < 6) LEN - 1 else if (t < 12) 0 else if (t < 18) LEN / 2 else pos, mask, e, u + u2 * Q)
    act(op, d, p, enc, kind, u, e)
  }

  // ---- compressed encodings ----
  action stepCompress = choose((op, d, p, enc, kind, u, e) =>
    if (op <= 4) write(d, p, "set", [d].concat(flat(p)), [])
    else if (op == 5) write(d, pneg(pt[d]), "neg", [d], [])
    else if (op <= 10) emit("compress", [d], compress(pt[d], DEG))
    else {
      val r = decompress(enc, DEG)
      if (r._1) write(d, r._2, "decompress", [d].concat(enc), [1]) else emit("decompress", [d].concat(enc), [0])
    })

  // ---- checked decoding ----
  action stepChecked = choose((op, d, p, enc, kind, u, e) =>
    if (op <= 12) { val g = compress(p, DEG)  val s = inSubgroup(p)
                    if (s) write(d, p, "checked", [d].concat(g), [1]) else emit("checked", [d].concat(g), [0]) }
    else if (op <= 15) emit("subgroup", flat(p), [b2i(inSubgroup(p))])
    else {
      val r = decompress(enc, DEG)
      val s = r._1 and inSubgroup(r._2)
      if (s) write(d, r._2, "checked", [d].concat(enc), [1]) else emit("checked", [d].concat(enc), [0])
    })

  // ---- uncompressed bytes ----
  action stepRaw = choose((op, d, p, enc, kind, u, e) =>
    if (op <= 3) write(d, p, "set", [d].concat(flat(p)), [])
    else if (op == 4) write(d, pneg(pt[d]), "neg", [d], [])
    else if (op <= 9) emit("raw", [d], raw(pt[d], DEG))
    else if (op <= 17) { val v = if (op <= 13) pt[1 - d] else p
                         write(d, v, "setRaw", [d].concat(raw(v, DEG)), [1]) }
    // a coordinate that is not below q
    else if (DEG == 2) {
      val bs = raw(pt[d], DEG)
      val c = u % 4
      val bad = if (kind < 5) Q else if (kind < 10) Q + e else if (kind < 15) 2^384 - 1 - e else Q + u
      emit("setRaw", [d].concat(bs.slice(0, 48 * c)).concat(toBytes(bad, 48)).concat(bs.slice(48 * c + 48, 192)), [0])
    }
    else emit("raw", [d], raw(pt[d], DEG)))

  // ---- keys and signatures ----
  action stepKeys = choose((op, d, p, enc, kind, u, e) =>
    if (op <= 2) write(d, p, "wrap", [d].concat(flat(p)), [])
    else if (op <= 5) emit("serialize", [d], compress(pt[d], DEG))
    else if (op <= 9) {
      val r = decompress(enc, DEG)
      val s = r._1 and inSubgroup(r._2)
      if (s) write(d, r._2, "deserialize", [d].concat(enc), [1]) else emit("deserialize", [d].concat(enc), [0])
    }
    else if (op == 10) write(d, pt[1 - d], "copy", [d, 1 - d], [])
    else if (op == 11) write(d, [], "blank", [d], [])
    // the same or the opposite point in another projective form
    // changed in place, after it may have been written out
    else if (op == 13 and u % 2 == 0) write(d, padd(pt[d], pt[if (kind < 6) d else 1 - d]), "aggregate", [d, if (kind < 6) d else 1 - d], [])
    else if (op == 12) write(d, pt[1 - d], "rewrap", [d, 1 - d, if (u == 0) 1 else u], [])
    else if (op <= 14) emit("equals", [d, 1 - d], [b2i(pt[d] == pt[1 - d])])
    else {
      val n = if (kind < 4) u % R else if (kind < 7) R + e - 3 else if (kind < 9) 2^256 - 1 - e else if (kind < 12) e
        // of every length
        else if (kind > 17) u % 2^(8 * (e + 1))
        else if (kind < 14) R - 1 - e else if (kind == 14) R - e * 2^64 else if (kind == 15) R + e * 2^128 else u % 2^256
      if (op <= 17) (if (n < R) all { pt' = pt, sk' = n, ev' = { op: "skDeserialize", i: toBytes(n, 32), r: [1] } }
                     else emit("skDeserialize", toBytes(n, 32), [0]))
      else if (op == 18) (if (n < R) all { pt' = pt, sk' = n, ev' = { op: "skFrom", i: [n], r: [1] } }
                          else emit("skFrom", [n], [0]))
      else emit("skSerialize", [], toBytes(sk, 32))
    })

  action step = stepCompress

  // canonical encodings are accepted and stay themselves
  val inv = and {
    pt.indices().forall(i => onCurve(pt[i], B)),
    (ev.op == "decompress" and ev.r == [1]) implies compress(pt[ev.i[0]], DEG) == ev.i.slice(1, LEN + 1),
    (ev.op == "compress") implies decompress(ev.r, DEG) == (true, pt[ev.i[0]]),
    sk >= 0 and sk < R,
  }

  run edgeTest = all {
    assert(EDGES.indices().forall(i => onCurve(EDGES[i], B))),
    assert(EDGES.indices().forall(i => decompress(compress(EDGES[i], DEG), DEG) == (true, EDGES[i]))),
    assert(not(inSubgroup(WILD)) and inSubgroup(G)),
  }
}
module m_codec1 {
  import m_codec(DEG = 1).*
}
module m_codec2 {
  import m_codec(DEG = 2).*
}
