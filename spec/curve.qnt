// The curves y^2 = x^3 + B over Fp (lists of length 1) or Fp[u]/(u^2+1) (lists of length 2).
// A point is [] (the identity) or the list of the coordinates of x followed by those of y.
module curveOver {
  import num.* from "./num"
  const P: int

  type Fe = List[int]
  type Pt = List[int]

  pure def fadd(x: Fe, y: Fe): Fe =
    if (length(x) == 1) [(x[0] + y[0]) % P] else [(x[0] + y[0]) % P, (x[1] + y[1]) % P]
  pure def fsub(x: Fe, y: Fe): Fe =
    if (length(x) == 1) [md(x[0] - y[0], P)] else [md(x[0] - y[0], P), md(x[1] - y[1], P)]
  pure def fmul(x: Fe, y: Fe): Fe =
    if (length(x) == 1) [x[0] * y[0] % P] else [md(x[0] * y[0] - x[1] * y[1], P), (x[0] * y[1] + x[1] * y[0]) % P]
  pure def fneg(x: Fe): Fe = if (length(x) == 1) [md(-x[0], P)] else [md(-x[0], P), md(-x[1], P)]
  pure def fscale(x: Fe, c: int): Fe = if (length(x) == 1) [x[0] * c % P] else [x[0] * c % P, x[1] * c % P]
  pure def fzero(x: Fe): bool = if (length(x) == 1) x[0] == 0 else x[0] == 0 and x[1] == 0
  pure def finv(x: Fe): Fe =
    if (length(x) == 1) [invmod(x[0], P)]
    else { val d = invmod((x[0] * x[0] + x[1] * x[1]) % P, P)  [x[0] * d % P, md(-x[1] * d, P)] }
  pure def fpow(x: Fe, e: int): Fe =
    range(0, bitlen(e)).foldl((e, x, if (length(x) == 1) [1 % P] else [1 % P, 0]), (s, _i) =>
      (s._1 / 2, if (s._1 > 1) fmul(s._2, s._2) else s._2, if (s._1 % 2 == 1) fmul(s._3, s._2) else s._3))._3
  // order of field elements: highest coefficient first
  pure def fcmp(x: Fe, y: Fe): int = {
    val d = if (length(x) == 1 or x[1] == y[1]) x[0] - y[0] else x[1] - y[1]
    if (d < 0) -1 else if (d > 0) 1 else 0
  }
  pure def fgreater(x: Fe): bool = fcmp(x, fneg(x)) > 0
  // 1 if square (0 included); P = 3 modulo 4
  pure def isSquare(x: Fe): bool =
    { val n = if (length(x) == 1) x[0] else (x[0] * x[0] + x[1] * x[1]) % P
      n == 0 or powmod(n, (P - 1) / 2, P) == 1 }
  // one of the roots of a square
  pure def fsqrt(x: Fe): Fe =
    if (length(x) == 1) [powmod(x[0], (P + 1) / 4, P)]
    else if (x[1] == 0) { val r = powmod(x[0], (P + 1) / 4, P)  if (r * r % P == x[0]) [r, 0] else [0, powmod(md(-x[0], P), (P + 1) / 4, P)] }
    else {
      val n = powmod((x[0] * x[0] + x[1] * x[1]) % P, (P + 1) / 4, P)
      val h = (P + 1) / 2
      val t1 = (x[0] + n) * h % P
      val t = if (t1 == 0 or powmod(t1, (P - 1) / 2, P) == P - 1) md((x[0] - n) * h, P) else t1
      val c = powmod(t, (P + 1) / 4, P)
      [c, x[1] * invmod(2 * c % P, P) % P]
    }

  pure def px(p: Pt): Fe = p.slice(0, length(p) / 2)
  pure def py(p: Pt): Fe = p.slice(length(p) / 2, length(p))
  pure def rhs(x: Fe, b: Fe): Fe = fadd(fmul(fmul(x, x), x), b)
  pure def onCurve(p: Pt, b: Fe): bool = p == [] or fmul(py(p), py(p)) == rhs(px(p), b)
  pure def pneg(p: Pt): Pt = if (p == []) [] else px(p).concat(fneg(py(p)))

  // the group law: chords and tangents
  pure def padd(p: Pt, q: Pt): Pt =
    if (p == []) q else if (q == []) p
    else if (px(p) == px(q) and py(p) == fneg(py(q))) []
    else {
      val l = if (px(p) == px(q)) fmul(fscale(fmul(px(p), px(p)), 3), finv(fscale(py(p), 2)))
              else fmul(fsub(py(q), py(p)), finv(fsub(px(q), px(p))))
      val x = fsub(fsub(fmul(l, l), px(p)), px(q))
      x.concat(fsub(fmul(l, fsub(px(p), x)), py(p)))
    }

  // multiples: double-and-add on (X : Y : Z), x = X/Z^2, y = Y/Z^3, Z = 0 the identity;
  // least significant bit first, so that only distinct formulas are shared with nothing else
  type Jac = { x: Fe, y: Fe, z: Fe }
  pure def jdouble(p: Jac): Jac =
    if (fzero(p.z) or fzero(p.y)) { x: p.x, y: p.y, z: fscale(p.z, 0) }
    else {
      val yy = fmul(p.y, p.y)
      val s = fscale(fmul(p.x, yy), 4)
      val m = fscale(fmul(p.x, p.x), 3)
      val x3 = fsub(fmul(m, m), fscale(s, 2))
      { x: x3, y: fsub(fmul(m, fsub(s, x3)), fscale(fmul(yy, yy), 8)), z: fscale(fmul(p.y, p.z), 2) }
    }
  // p + the affine point q
  pure def jadd(p: Jac, q: Pt): Jac =
    if (q == []) p
    else if (fzero(p.z)) { x: px(q), y: py(q), z: fpow(px(q), 0) }
    else {
      val zz = fmul(p.z, p.z)
      val h = fsub(fmul(px(q), zz), p.x)
      val r = fsub(fmul(py(q), fmul(zz, p.z)), p.y)
      if (fzero(h)) (if (fzero(r)) jdouble(p) else { x: p.x, y: p.y, z: fscale(p.z, 0) })
      else {
        val hh = fmul(h, h)
        val hhh = fmul(hh, h)
        val v = fmul(p.x, hh)
        val x3 = fsub(fsub(fmul(r, r), hhh), fscale(v, 2))
        { x: x3, y: fsub(fmul(r, fsub(v, x3)), fmul(p.y, hhh)), z: fmul(p.z, h) }
      }
    }
  pure def toAffine(p: Jac): Pt =
    if (fzero(p.z)) []
    else { val i = finv(p.z)  val i2 = fmul(i, i)  fmul(p.x, i2).concat(fmul(p.y, fmul(i2, i))) }
  // k * p for k >= 0, most significant bit first
  pure def pmul(p: Pt, k: int): Pt =
    if (p == [] or k == 0) []
    else {
      val o = fpow(px(p), 0)
      val n = bitlen(k)
      // the bits of k, most significant first
      val bits = range(0, n).foldl((k, []), (s, _i) => (s._1 / 2, [s._1 % 2].concat(s._2)))._2
      toAffine(bits.foldl({ x: o, y: o, z: fscale(o, 0) }, (acc, b) => {
        val d = jdouble(acc)
        if (b == 1) jadd(d, p) else d
      }))
    }

  // the point with this x and the greater or smaller y ([] if there is none)
  pure def lift(x: Fe, b: Fe, greatest: bool): Pt = {
    val r = rhs(x, b)
    if (not(isSquare(r))) [] else {
      val y = fsqrt(r)
      x.concat(if (fgreater(y) == greatest or fzero(y)) y else fneg(y))
    }
  }
}

// The curves of BLS12-381.
module curve {

  pure val B1: List[int] = [4]
  pure val B2: List[int] = [4, 4]
  pure val G1: List[int] = [
    3685416753713387016781088315183077757961620795782546409894578378688607592378376318836054947676345821548104185464507,
    1339506544944476473020471379941921221584933875938349620426543736416511423956333506472724655353366534992391756441569]
  pure val G2: List[int] = [
    352701069587466618187139116011060144890029952792775240219908644239793785735715026873347600343865175952761926303160,
    3059144344244213709971259814753781636986470325476647558659373206291635324768958432433509563104347017837885763365758,
    1985150602287291935568054521177171638300868978215655730859378665066344726373823718423869104263333984641494340347905,
    927553665492332455747201965776037880757740193453592970025027978793976877002675564980949289727957565575433344219582]
  // a cube root of one in the base field: (x, y) -> (BETA x, y) maps the curve to itself
  pure val BETA = 793479390729215512621379701633421447060886740281060493010456487427281649075476305620758731620350
  pure val H1 = 76329603384216526031706109802092473003
  pure val H2 = 305502333931268344200999753193121504214466019254188142667664032982267604182971884026507427359259977847832272839041616661285803823378372096355777062779109
}

// The definitions checked exhaustively on small curves of the same shape: the group axioms for all
// triples of points, and multiples against repeated addition for all points and scalars.
module curveToy {
  import num.* from "./num"
  import curveOver(P = 19) as f
  import curveOver(P = 7) as g

  pure val PTS1: Set[List[int]] = tuples(0.to(18), 0.to(18)).map(t => [t._1, t._2]).filter(p => f::onCurve(p, [4])).union(Set([]))
  pure val PTS2: Set[List[int]] = tuples(0.to(6), 0.to(6), 0.to(6), 0.to(6)).map(t => [t._1, t._2, t._3, t._4])
    .filter(p => g::onCurve(p, [4, 4])).union(Set([]))

  run toyTest = all {
    assert(PTS1.size() > 10 and PTS2.size() > 30),
    assert(tuples(PTS1, PTS1).forall(t => f::onCurve(f::padd(t._1, t._2), [4]) and f::padd(t._1, t._2) == f::padd(t._2, t._1))),
    assert(tuples(PTS1, PTS1, PTS1).forall(t => f::padd(f::padd(t._1, t._2), t._3) == f::padd(t._1, f::padd(t._2, t._3)))),
    assert(PTS1.forall(p => f::padd(p, f::pneg(p)) == [] and f::pmul(p, PTS1.size()) == [])),
    assert(PTS1.forall(p => range(0, 60).foldl(([], true), (s, k) => (f::padd(s._1, p), s._2 and f::pmul(p, k) == s._1))._2)),
    assert(tuples(PTS2, PTS2).forall(t => g::onCurve(g::padd(t._1, t._2), [4, 4]))),
    assert(PTS2.forall(p => range(0, 80).foldl(([], true), (s, k) => (g::padd(s._1, p), s._2 and g::pmul(p, k) == s._1))._2)),
    // roots and lifts: every square has its root, both lifts are found
    assert(tuples(0.to(6), 0.to(6)).forall(t => { val x = [t._1, t._2]
      g::isSquare(x) == tuples(0.to(6), 0.to(6)).exists(s => g::fmul([s._1, s._2], [s._1, s._2]) == x)
      and (g::isSquare(x) implies g::fmul(g::fsqrt(x), g::fsqrt(x)) == x) })),
    assert(PTS2.forall(p => p == [] or g::lift(g::px(p), [4, 4], g::fgreater(g::py(p))) == p)),
  }
  run assocTest = assert(tuples(PTS2, PTS2, PTS2).forall(t => g::padd(g::padd(t._1, t._2), t._3) == g::padd(t._1, g::padd(t._2, t._3))))
}
