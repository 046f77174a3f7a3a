// Random generation from a byte stream: rejection sampling of big-endian numbers of the minimal
// width, the surplus high bits cleared. `rest` is what the reader still holds; when it is exhausted
// the reader fails. It may also fail once before that.
module m_rand {
  import params.* from "./params"
  import num.* from "./num"
  import curveOver(P = Q).* from "./curve"
  import curve.* from "./curve"
  import torsion.* from "./torsion"
  import codec.* from "./codec"

  type Event = { op: str, i: List[int], r: List[int] }
  type Draw = { st: int, v: List[int], rest: List[int] } // st: 0 not yet, 1 drawn, 2 the reader failed
  var rest: List[int]
  var ev: Event

  // the first k bytes, if there are that many; whoever finds too few has consumed them
  pure def take(s: List[int], k: int): Draw =
    if (length(s) < k) { st: 2, v: [], rest: [] } else { st: 1, v: s.slice(0, k), rest: s.slice(k, length(s)) }
  // one number below p of at most `bits` bits
  pure def draw(s: List[int], bits: int, p: int): Draw = {
    val k = (bits + 7) / 8
    range(0, length(s) / k + 1).foldl({ st: 0, v: [], rest: s }, (d, _i) =>
      if (d.st != 0) d else {
        val t = take(d.rest, k)
        if (t.st == 2) t else {
          val n = fromBytes(t.v) % 2^bits
          if (n < p) { st: 1, v: [n], rest: t.rest } else { st: 0, v: [], rest: t.rest }
        }
      })
  }
  pure def drawMany(s: List[int], n: int): Draw =
    range(0, n).foldl({ st: 1, v: [], rest: s }, (d, _i) =>
      if (d.st == 2) d else { val t = draw(d.rest, 381, Q)
        { st: t.st, v: if (t.st == 2) [] else d.v.concat(t.v), rest: t.rest } })
  // a point: a byte (even: the greater y), an x-coordinate; again if x is not on the curve or the
  // cofactor multiple is the identity
  pure def drawPoint(s: List[int], deg: int): Draw =
    range(0, length(s) / (1 + 48 * deg) + 1).foldl({ st: 0, v: [], rest: s }, (d, _i) =>
      if (d.st != 0) d else {
        val b = take(d.rest, 1)
        if (b.st == 2) b else {
          val x = drawMany(b.rest, deg)
          if (x.st == 2) x else {
            val p = lift(x.v, bOf(deg), b.v[0] % 2 == 0)
            val q = if (p == []) [] else pmul(p, if (deg == 1) H1 else H2)
            if (q == []) { st: 0, v: [], rest: x.rest } else { st: 1, v: q, rest: x.rest }
          }
        }
      })

  pure val SMALL1: List[List[int]] = TORSION1.foldl([], (l, t) => l.append(px(t)))
  pure val SMALL2: List[List[int]] = TORSION2.foldl([], (l, t) => l.append(px(t)))

  // a block that encodes a number of bytes: below, at and above the modulus, surplus bits set or not
  pure def block(kind: int, u: int, dl: int, p: int, len: int, bits: int): List[int] = {
    val n = if (kind < 3) u % 2^(8 * len)
      else if (kind == 3) p + dl else if (kind == 4) p - 1 - dl else if (kind == 5) dl
      else if (kind == 6) 2^bits - 1 - dl else if (kind == 7) p + u % (2^bits - p) else u % p
    // the surplus bits
    if (kind < 3) toBytes(n, len) else toBytes(n + (u % 2^(8 * len - bits)) * 2^bits, len)
  }
  // the x-coordinate of a point that the cofactor kills
  pure def small(deg: int, k: int): List[int] = {
    val x = if (deg == 1) SMALL1[k % length(SMALL1)] else SMALL2[k % length(SMALL2)]
    x.foldl([], (l, c) => l.concat(toBytes(c, 48)))
  }

  action init = all { rest' = [], ev' = { op: "init", i: [], r: [] } }

  // the reader fails once after `brk` bytes and would go on afterwards
  action gives(o: str, mode: int, brk: int, d: Draw): bool =
    all { rest' = d.rest.concat(rest.slice(brk, length(rest))), ev' = { op: o, i: [mode, brk], r: if (d.st == 1) [1].concat(d.v) else [0] } }

  action step = {
    nondet op0 = 0.to(15).oneOf()
    nondet mode = 0.to(8).oneOf()
    nondet k0 = 0.to(8).oneOf()
    nondet k1 = 0.to(8).oneOf()
    nondet k2 = 0.to(8).oneOf()
    nondet u = 0.to(2^384 - 1).oneOf()
    nondet w = 0.to(2^384 - 1).oneOf()
    nondet dl = 0.to(5).oneOf()
    nondet form = 0.to(11).oneOf()
    nondet cut = 0.to(100).oneOf()
    val a = block(k0, u, dl, Q, 48, 381)
    val b = block(k1, w, dl, Q, 48, 381)
    val c = block(k2, (u + w) % 2^384, dl, Q, 48, 381)
    // long streams are for the larger elements
    val op = if (length(rest) >= 400 and op0 > 4 and dl < 3) (if (length(rest) >= 580 or dl < 1) 11 else 10) else op0
    // most of the time the reader fails only at its end
    val brk = if (mode < 7 or rest == []) length(rest) else if (u % 3 == 0) w % (length(rest) + 1) else if (u % 3 == 1) w % 52 % (length(rest) + 1)
      else { val p = w % 7 * 48 + u % 4  if (p > length(rest)) 0 else p }
    val src = rest.slice(0, brk)
    // a fresh stream, put together from blocks
    if (op <= 4) {
      val s = if (form == 0) a
        else if (form == 1) a.concat(b)
        else if (form == 2) a.concat(b).concat(c)
        else if (form == 3) block(k0, u, dl, R, 32, 255).concat(block(k1, w, dl, R, 32, 255)).concat(block(k2, u, dl, R, 32, 255))
        else if (form == 4) [u % 256].concat(a).concat([w % 256]).concat(b).concat([dl]).concat(c)
        else if (form == 5) [u % 256].concat(a).concat(b).concat([w % 256]).concat(c).concat(a).concat([dl]).concat(b).concat(c)
        else if (form == 6) [u % 256].concat(small(1, w % 97)).concat([w % 256]).concat(a).concat([dl]).concat(b)
        else if (form == 7) [u % 256].concat(small(2, w % 97)).concat([w % 256]).concat(a).concat(b).concat([dl]).concat(c).concat(b)
        else if (form == 8) range(0, 13).foldl([], (l, i) => l.concat(block(if (i % 4 == 0) k0 else if (i % 4 == 1) k1 else k2, (u + i * w) % 2^384, dl, Q, 48, 381)))
        else if (form == 9) a.concat(block(8, w, dl, R, 32, 255)).concat(b)
        else if (form == 10) []
        else rest.concat(a)
      // cut off somewhere, now and then
      val t = if (cut < 25) s.slice(0, length(s) * cut / 25) else if (cut < 30 and s != []) s.slice(0, length(s) - 1) else s
      all { rest' = t, ev' = { op: "stream", i: t, r: [] } }
    }
    else if (op == 5) gives("fq", mode, brk, draw(src, 381, Q))
    else if (op <= 7) gives("fr", mode, brk, draw(src, 255, R))
    else if (op == 8) gives("key", mode, brk, draw(src, 255, R))
    else if (op == 9) gives("fq2", mode, brk, drawMany(src, 2))
    else if (op == 10) (if (length(rest) >= 200) gives("fq6", mode, brk, drawMany(src, 6)) else gives("fq2", mode, brk, drawMany(src, 2)))
    else if (op == 11) (if (length(rest) >= 400) gives("fq12", mode, brk, drawMany(src, 12)) else gives("fq", mode, brk, draw(src, 381, Q)))
    else if (op <= 13) gives("g1", mode, brk, drawPoint(src, 1))
    else gives("g2", mode, brk, drawPoint(src, 2))
  }

  val drawn = length(ev.r) > 0 and ev.r[0] == 1
  val inv = and {
    (drawn and Set("fq", "fq2", "fq6", "fq12").contains(ev.op)) implies ev.r.slice(1, length(ev.r)).indices().forall(i => ev.r[i + 1] < Q),
    (drawn and Set("fr", "key").contains(ev.op)) implies ev.r[1] < R,
    (drawn and ev.op == "g1") implies (length(ev.r) == 3 and onCurve(ev.r.slice(1, 3), B1) and pmul(ev.r.slice(1, 3), R) == []),
    (drawn and ev.op == "g2") implies (length(ev.r) == 5 and onCurve(ev.r.slice(1, 5), B2) and pmul(ev.r.slice(1, 5), R) == []),
  }
}
