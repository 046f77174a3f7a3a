// Long aggregates: many signers over many messages. MODE 1 and 2: the two packages (public keys in
// the group of that degree); MODE 3: the forms with a domain (public keys in G1). Eleven keys with short
// exponents (two keys equal, two opposite), one that is zero, and NMSG messages that share prefixes and suffixes.
// `plan` is the list of (key, message) the signature was made for, `cplan` the keys that signed
// message `cmsg` in common, whichever came last.
module m_wide {
  import params.* from "./params"
  import num.* from "./num"
  import curveOver(P = Q).* from "./curve"
  import curve.* from "./curve"
  import codec.* from "./codec"
  import h2c.* from "./h2c"

  const MODE: int

  type Event = { op: str, i: List[int], r: List[int] }
  var e: List[int]
  var pk: List[List[int]]
  var msg: List[List[int]]
  var dom: List[int]
  var h: List[List[int]]
  var plan: List[(int, int)]
  var cplan: List[int]
  var cmsg: int
  var sig: List[int]
  var agg: List[int]             // the last aggregated public key
  var ev: Event

  pure val GP = if (MODE == 2) G2 else G1
  pure val GS = if (MODE == 2) G1 else G2
  pure val NKEY = 11
  pure val NMSG = if (MODE == 3) 8 else 66
  pure val SIZES = Set(0, 1, 2, 3, 6, 7, 8, 9, 12, 15, 16, 17, 20, 26, 32, 33, 64, 65)
  pure val LONG = SIZES.union(Set(40, 100, 127, 128, 129, 200, 256, 257))
  pure def b2i(b: bool): int = if (b) 1 else 0
  pure def mulSub(x: List[int], n: int): List[int] = pmul(x, md(n, R))
  // multiples with an exponent just below R are those of the opposite
  pure def times(x: List[int], n: int): List[int] = if (n > R / 2) pneg(pmul(x, R - n)) else pmul(x, n)
  def valid(l: List[(int, int)]): List[int] = l.foldl([], (acc, t) => padd(acc, times(h[t._2], e[t._1])))
  def distinct(l: List[(int, int)]): bool =
    l.indices().forall(i => l.indices().forall(j => i == j or msg[l[i]._2] != msg[l[j]._2]))
  pure def fsts(l: List[(int, int)]): List[int] = l.foldl([], (o, t) => o.append(t._1))
  pure def snds(l: List[(int, int)]): List[int] = l.foldl([], (o, t) => o.append(t._2))
  def expSum(l: List[int]): int = l.foldl(0, (s, k) => (s + e[k]) % R)

  // message i: a chain of prefixes, common prefixes, common suffixes, unrelated ones
  pure def message(i: int, u: int): List[int] =
    if (MODE == 3) (if (i < 3) toBytes(u % 2^240, 32).replaceAt(31, i) else if (i < 6) toBytes(u % 2^240, 32).replaceAt(0, i) else toBytes(u * i * i % 2^256, 32))
    else if (i < 8) zeros(i)
    else if (i < 16) toBytes(u % 2^256, 32).append(i)
    else if (i < 24) [i * 8].concat(toBytes(u % 2^256, 32))
    // long ones that differ at the end
    else if (i < 27) toBytes(u % 2^512, 64).concat(toBytes(u * 3 % 2^512, 64)).append(i)
    else toBytes(u * i * i * i % 2^512, i % 40 + 20)
  pure def image(m: List[int], d: List[int]): List[int] =
    if (MODE == 1) hash2(m) else if (MODE == 2) hash1(m) else hashDomain(m, d)

  action keepWith(p: List[(int, int)], cp: List[int], cm: int, s: List[int], g: List[int], o: str, ins: List[int], res: List[int]): bool =
    all { e' = e, pk' = pk, msg' = msg, dom' = dom, h' = h, plan' = p, cplan' = cp, cmsg' = cm, sig' = s, agg' = g, ev' = { op: o, i: ins, r: res } }
  action keepAll(o: str, ins: List[int], res: List[int]): bool = keepWith(plan, cplan, cmsg, sig, agg, o, ins, res)

  action init = {
    nondet u = 1.to(2^512 - 1).oneOf()
    nondet w = 1.to(2^40 - 1).oneOf()
    nondet dv = 0.to(2^64 - 1).oneOf()
    val first = range(0, NKEY - 3).foldl([], (o, i) => o.append((w * (i + 1) * (i + 3) + i) % 2^48 + 1))
    val ex = first.append(first[0]).append(R - first[1]).append(0)
    val pks = first.foldl([], (o, x) => o.append(pmul(GP, x)))
    val ms = range(0, NMSG).foldl([], (o, i) => o.append(message(i, u)))
    val d = toBytes(dv, 8)
    all {
      e' = ex, pk' = pks.append(pks[0]).append(pneg(pks[1])).append([]), msg' = ms, dom' = d,
      h' = ms.foldl([], (o, m) => o.append(image(m, d))),
      plan' = [], cplan' = [], cmsg' = 0, sig' = [], agg' = [],
      ev' = { op: "init", i: [], r: [] },
    }
  }

  // a list of n signers over messages that are all different (as long as there are enough)
  action sign = {
    nondet n0 = SIZES.oneOf()
    nondet n1 = 0.to(66).oneOf()
    nondet free = 0.to(3).oneOf()
    nondet a = 0.to(65).oneOf()
    nondet st = Set(1, 5, 7, 13).oneOf()
    nondet ka = 0.to(10).oneOf()
    nondet kb = 0.to(10).oneOf()
    nondet p1 = 0.to(300).oneOf()
    nondet p2 = 0.to(300).oneOf()
    nondet how = 0.to(5).oneOf()
    val n = if (free > 0) n0 else n1
    val l0 = range(0, n).foldl([], (o, i) => o.append(((ka + kb * i + i * i / 3) % NKEY, (a + st * i) % NMSG)))
    // sometimes one message occurs twice, in the signature as well
    val l = if (how < 3 and n > 1) l0.replaceAt(p1 % n, (l0[p1 % n]._1, l0[p2 % n]._2)) else l0
    keepWith(l, [], 0, valid(l), agg, "sign", [n].concat(fsts(l)).concat(snds(l)), [])
  }
  action signCommon = {
    nondet n0 = LONG.oneOf()
    nondet n1 = 0.to(150).oneOf()
    nondet free = 0.to(3).oneOf()
    nondet m = 0.to(7).oneOf()
    nondet ka = 0.to(10).oneOf()
    nondet kb = 0.to(10).oneOf()
    val n = if (free == 0) n0 else n1
    val l = range(0, n).foldl([], (o, i) => o.append((ka + kb * i + i * i / 3) % NKEY))
    keepWith([], l, m, mulSub(h[m], expSum(l)), agg, "signCommon", [m].concat(l), [])
  }
  action aggregate = {
    nondet n0 = LONG.oneOf()
    nondet n1 = 0.to(150).oneOf()
    nondet free = 0.to(3).oneOf()
    nondet ka = 0.to(10).oneOf()
    nondet kb = 0.to(10).oneOf()
    val n = if (free == 0) n0 else n1
    val l = range(0, n).foldl([], (o, i) => o.append((ka + kb * i + i * i / 3) % NKEY))
    keepWith(plan, cplan, cmsg, sig, mulSub(GP, expSum(l)), "aggPub", l, [])
  }
  action alter = {
    nondet how = 0.to(1).oneOf()
    val s = if (how == 0) pneg(sig) else padd(sig, GS)
    keepWith(plan, cplan, cmsg, s, agg, if (how == 0) "negSig" else "shiftSig", [], [])
  }

  pure def without(l: List[(int, int)], i: int): List[(int, int)] = l.slice(0, i).concat(l.slice(i + 1, length(l)))
  pure def inserted(l: List[(int, int)], i: int, x: (int, int)): List[(int, int)] = l.slice(0, i).append(x).concat(l.slice(i, length(l)))

  action verify = {
    nondet how0 = 0.to(16).oneOf()
    nondet p1 = 0.to(300).oneOf()
    nondet p2 = 0.to(300).oneOf()
    nondet k = 0.to(10).oneOf()
    nondet m = 0.to(65).oneOf()
    // first of all with the list it was made for
    val how = if (ev.op == "sign" and p1 % 2 == 0) how0 % 5 else how0
    val n = length(plan)
    val i = if (n == 0) 0 else p1 % n
    val j = if (n == 0) 0 else p2 % n
    val x = if (n == 0) (k, m % NMSG) else plan[i]
    val y = if (n == 0) (k, m % NMSG) else plan[j]
    val l = if (how < 3 or (n == 0 and how < 12)) plan
      else if (how == 3) range(0, n).foldl([], (o, t) => o.append(plan[n - 1 - t]))
      else if (how == 4) plan.slice(i, n).concat(plan.slice(0, i))
      else if (how == 5) without(plan, i)
      else if (how == 6) inserted(plan, j, x)
      else if (how == 7) plan.replaceAt(i, (k, x._2))
      else if (how == 8) plan.replaceAt(i, (x._1, m % NMSG))
      else if (how == 9) plan.replaceAt(i, (y._1, x._2)).replaceAt(j, (x._1, y._2))
      else if (how == 10) plan.replaceAt(i, y).replaceAt(j, x)
      else if (how == 11) without(plan, n - 1)
      else if (how == 12) plan.append((k, m % NMSG))
      // a pair of signers that cancel: equal messages, opposite keys
      else if (how == 13) inserted(inserted(plan, j, (1, m % NMSG)), i, (9, m % NMSG))
      // the identity key signs nothing
      else if (how == 16) inserted(plan, j, (10, m % NMSG))
      else plan
    // lists of different lengths
    val ps = if (how == 14) fsts(l).append(k) else fsts(l)
    val ms = if (how == 15) snds(l).append(m % NMSG) else snds(l)
    keepAll("verify", [length(ps)].concat(ps).concat(ms),
      [b2i(length(ps) == length(ms) and (MODE == 3 or distinct(l)) and sig == valid(l))])
  }
  action verifyCommon = {
    nondet how = 0.to(7).oneOf()
    nondet p1 = 0.to(300).oneOf()
    nondet k = 0.to(10).oneOf()
    nondet m = 0.to(7).oneOf()
    val n = length(cplan)
    val i = if (n == 0) 0 else p1 % n
    val l = if (how < 3 or n == 0) cplan
      else if (how == 3) range(0, n).foldl([], (o, t) => o.append(cplan[n - 1 - t]))
      else if (how == 4) cplan.slice(0, i).concat(cplan.slice(i + 1, n))
      else if (how == 5) cplan.replaceAt(i, k)
      else if (how == 6) cplan.append(k)
      else cplan.append(1).append(9)
    val mm = if (how == 2) m else cmsg
    keepAll("common", [mm].concat(l), [b2i(sig == mulSub(h[mm], expSum(l)))])
  }

  action step = {
    nondet w = 0.to(11).oneOf()
    if (ev.op == "sign" or (ev.op == "verify" and w < 8)) verify
    else if (ev.op == "signCommon" or (ev.op == "common" and w < 5)) verifyCommon
    else if (w < 5) sign else if (w < 8) signCommon else if (w < 10) aggregate else if (w == 10) alter else verify
  }

  val inv = and {
    onCurve(sig, bOf(if (MODE == 2) 1 else 2)),
    onCurve(agg, bOf(if (MODE == 2) 2 else 1)),
    ev.op == "init" implies msg.indices().forall(i => msg.indices().forall(j => i == j or msg[i] != msg[j])),
  }
}
module m_wide1 {
  import m_wide(MODE = 1).*
}
module m_wide2 {
  import m_wide(MODE = 2).*
}
module m_wide3 {
  import m_wide(MODE = 3).*
}
