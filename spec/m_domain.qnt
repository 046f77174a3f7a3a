// Signatures with a domain (public keys in G1): keys, messages of 32 bytes, domains of 8 bytes, the
// image of every message in every domain and without one, signatures. `plan` is the list of (key,
// message) the last aggregate was made for, and `where` the domain and register it went to.
module m_domain {
  import params.* from "./params"
  import num.* from "./num"
  import curveOver(P = Q).* from "./curve"
  import curve.* from "./curve"
  import codec.* from "./codec"
  import h2c.* from "./h2c"

  type Event = { op: str, i: List[int], r: List[int] }
  var sk: List[int]              // 2 secret exponents
  var e: List[int]               // exponents of 4 public keys; 0 and 1 belong to the keys
  var pk: List[List[int]]
  var msg: List[List[int]]       // 2 messages
  var dom: List[List[int]]       // 2 domains
  var h: List[List[int]]         // images: of message m in domain d at 2 m + d, without domain at 4 + m
  var sig: List[List[int]]       // 3 signatures
  var plan: List[(int, int)]
  var where: List[int]
  var last: List[int]            // message, domain, key and signature of the verification that last succeeded
  var ev: Event

  pure def b2i(b: bool): int = if (b) 1 else 0
  pure def mulSub(x: List[int], n: int): List[int] = pmul(x, md(n, R))
  // the unique valid signature for a list of (public key, message) in a domain
  def valid(l: List[(int, int)], d: int): List[int] = l.foldl([], (acc, t) => padd(acc, mulSub(h[2 * t._2 + d], e[t._1])))

  action keepAll(o: str, ins: List[int], res: List[int]): bool =
    all { sk' = sk, e' = e, pk' = pk, msg' = msg, dom' = dom, h' = h, sig' = sig, plan' = plan, where' = where, last' = last, ev' = { op: o, i: ins, r: res } }
  action setSig(d: int, s: List[int], l: List[(int, int)], w: List[int], o: str, ins: List[int]): bool =
    all { sk' = sk, e' = e, pk' = pk, msg' = msg, dom' = dom, h' = h, sig' = sig.replaceAt(d, s), plan' = l, where' = w, last' = last, ev' = { op: o, i: ins, r: [] } }
  action setPub(d: int, x: int, p: List[int], o: str, ins: List[int]): bool =
    all { sk' = if (d < 2) sk.replaceAt(d, x) else sk, e' = e.replaceAt(d, x), pk' = pk.replaceAt(d, p), msg' = msg, dom' = dom, h' = h,
          sig' = sig, plan' = plan, where' = where, last' = last, ev' = { op: o, i: ins, r: [] } }

  pure val Z32 = zeros(32)
  pure val D0 = zeros(8)
  pure val D1 = zeros(8).replaceAt(7, 1)
  action init = all {
    sk' = [1, 2], e' = [1, 2, 0, 3], pk' = [G1, pmul(G1, 2), [], pmul(G1, 3)],
    msg' = [Z32, Z32.replaceAt(0, 1)], dom' = [D0, D1],
    h' = [hashDomain(Z32, D0), hashDomain(Z32, D1), hashDomain(Z32.replaceAt(0, 1), D0), hashDomain(Z32.replaceAt(0, 1), D1), hash2(Z32), hash2(Z32.replaceAt(0, 1))],
    sig' = [[], G2, []], plan' = [], where' = [0, 0], last' = [0, 0, 0, 0], ev' = { op: "init", i: [], r: [] } }

  pure def variation(kind: int, m: List[int], u: int): List[int] =
    if (kind == 0) m
    else if (kind < 4) m.replaceAt(u % length(m), (m[u % length(m)] + 1) % 256)
    else if (kind == 4) m.replaceAt(length(m) - 1, (m[length(m) - 1] + 128) % 256)
    else if (kind == 5) zeros(length(m))
    else toBytes(u, length(m))

  action make = {
    nondet op = 0.to(13).oneOf()
    nondet d = 0.to(2).oneOf()
    nondet i = 0.to(2).oneOf()
    nondet b = 0.to(1).oneOf()
    nondet m = 0.to(1).oneOf()
    nondet k = 0.to(1).oneOf()
    nondet kind = 0.to(8).oneOf()
    nondet u = 0.to(2^256 - 1).oneOf()
    nondet len = 0.to(4).oneOf()
    nondet picks = 0.to(255).oneOf()
    if (op <= 1) {
      val x = md(if (kind == 0) 0 else if (kind == 1) -sk[1 - k] else if (kind == 2) sk[1 - k] else if (kind == 3) R - 1 else u, R)
      setPub(k, x, pmul(G1, x), "key", [k, x])
    }
    else if (op == 2) setPub(2 + b, (e[2 + b] + e[k]) % R, padd(pk[2 + b], pk[k]), "addPub", [2 + b, k])
    else if (op == 3) setPub(2 + b, (e[0] + e[1]) % R, padd(pk[0], pk[1]), "sumPub", [2 + b])
    else if (op == 4) {
      val x = variation(kind, msg[1 - m], u)
      all { sk' = sk, e' = e, pk' = pk, msg' = msg.replaceAt(m, x), dom' = dom,
            h' = h.replaceAt(2 * m, hashDomain(x, dom[0])).replaceAt(2 * m + 1, hashDomain(x, dom[1])).replaceAt(4 + m, hash2(x)),
            sig' = sig, plan' = plan, where' = where, last' = last, ev' = { op: "msg", i: [m].concat(x), r: [] } }
    }
    else if (op == 5) {
      val x = variation(kind, dom[1 - b], u % 2^64)
      all { sk' = sk, e' = e, pk' = pk, msg' = msg, dom' = dom.replaceAt(b, x),
            h' = h.replaceAt(b, hashDomain(msg[0], x)).replaceAt(2 + b, hashDomain(msg[1], x)),
            sig' = sig, plan' = plan, where' = where, last' = last, ev' = { op: "dom", i: [b].concat(x), r: [] } }
    }
    else if (op <= 8) setSig(d, mulSub(h[2 * m + b], sk[k]), [(k, m)], [b, d], "sign", [d, k, m, b])
    else if (op == 9) setSig(d, mulSub(h[4 + m], sk[k]), [(k, m)], [b, d], "plain", [d, k, m])
    else if (op == 10) setSig(d, padd(sig[d], sig[i]), plan, where, "addSig", [d, i])
    else if (op == 11) setSig(d, pneg(sig[i]), plan, where, "negSig", [d, i])
    else {
      val l = range(0, len).foldl([], (o, a) => o.append(((picks / 4^a) % 2, (picks / 4^a) / 2 % 2)))
      setSig(d, valid(l, b), l, [b, d], "signList",
        l.foldl([d, b], (o, t) => o.append(t._1).append(t._2)))
    }
  }

  action verify(m: int, b: int, p: int, s: int): bool = {
    val ok = sig[s] == mulSub(h[2 * m + b], e[p])
    all { sk' = sk, e' = e, pk' = pk, msg' = msg, dom' = dom, h' = h, sig' = sig, plan' = plan, where' = where,
          last' = if (ok) [m, b, p, s] else last, ev' = { op: "verify", i: [p, m, s, b], r: [b2i(ok)] } }
  }
  // one of the objects of a verification that succeeded changes in place, or is passed on to one that can
  action touch = {
    nondet what = 0.to(12).oneOf()
    nondet j = 0.to(3).oneOf()
    nondet i = 0.to(2).oneOf()
    nondet style = 0.to(3).oneOf()
    val p = last[2]
    val s = last[3]
    if (what <= 1 or what == 8) {
      if (p >= 2) setPub(p, (e[p] + e[j]) % R, padd(pk[p], pk[j]), "addPub", [p, j])
      else all { sk' = sk, e' = e.replaceAt(2 + j % 2, e[p]), pk' = pk.replaceAt(2 + j % 2, pk[p]), msg' = msg, dom' = dom, h' = h, sig' = sig, plan' = plan,
                 where' = where, last' = last.replaceAt(2, 2 + j % 2), ev' = { op: "passPub", i: [2 + j % 2, p, style], r: [] } }
    }
    else if (what == 2 or what == 9) setPub(2 + j % 2, e[(i + j) % 4], pk[(i + j) % 4], "replacePub", [2 + j % 2, (i + j) % 4])
    else if (what == 3 or what == 10) setSig(s, padd(sig[s], sig[i]), plan, where, "addSig", [s, i])
    else if (what == 4) setSig(s, sig[i], plan, where, "replaceSig", [s, i])
    else if (what == 5 or what > 10) {
      // the same signature in another object; the signature it was read from changes afterwards
      all { sk' = sk, e' = e, pk' = pk, msg' = msg, dom' = dom, h' = h, sig' = sig.replaceAt(i, sig[s]), plan' = plan, where' = where,
            last' = last.replaceAt(3, i), ev' = { op: "passSig", i: [i, s, style], r: [] } }
    }
    // the message or the domain is overwritten where it is
    else if (what == 6) {
      val x = variation(j, msg[last[0]], 7 * i + 29)
      all { sk' = sk, e' = e, pk' = pk, msg' = msg.replaceAt(last[0], x), dom' = dom,
            h' = h.replaceAt(2 * last[0], hashDomain(x, dom[0])).replaceAt(2 * last[0] + 1, hashDomain(x, dom[1])).replaceAt(4 + last[0], hash2(x)),
            sig' = sig, plan' = plan, where' = where, last' = last, ev' = { op: "msg", i: [last[0]].concat(x), r: [] } }
    }
    else {
      val x = variation(j, dom[last[1]], 3 * i + 5)
      all { sk' = sk, e' = e, pk' = pk, msg' = msg, dom' = dom.replaceAt(last[1], x),
            h' = h.replaceAt(last[1], hashDomain(msg[0], x)).replaceAt(2 + last[1], hashDomain(msg[1], x)),
            sig' = sig, plan' = plan, where' = where, last' = last, ev' = { op: "dom", i: [last[1]].concat(x), r: [] } }
    }
  }

  action check = {
    nondet form = 0.to(7).oneOf()
    nondet how = 0.to(9).oneOf()
    nondet p = 0.to(3).oneOf()
    nondet m = 0.to(1).oneOf()
    nondet b = 0.to(1).oneOf()
    nondet s = 0.to(2).oneOf()
    nondet len = 0.to(4).oneOf()
    nondet picks = 0.to(4095).oneOf()
    val n = length(plan)
    val nils = range(0, 4).select(k => pk[k] == [])
    val first = if (n > 0) plan[0] else (p, m)
    val ss = if (how == 9) s else where[1]
    val bb = if (how == 8) b else where[0]
    if (form == 0) {
      val pp = if (how < 4 or how > 7) first._1 else p
      val mm = if (how == 4 or how == 5) first._2 else if (how > 5 and how < 8) m else first._2
      verify(mm, bb, pp, ss)
    }
    else if (form == 1) {
      val pp = if (how < 5) first._1 else p
      val mm = if (how < 7) first._2 else m
      keepAll("verifyPlain", [pp, mm, ss], [b2i(sig[ss] == mulSub(h[4 + mm], e[pp]))])
    }
    else if (form == 2 or form == 5) {
      // one message for all keys: that of the first contribution
      val l = if (how < 6) plan.foldl([], (o, t) => o.append(t._1)) else range(0, len).foldl([], (o, a) => o.append((picks / 4^a) % 4))
      val mm = if (how == 5) m else first._2
      keepAll("common", [ss, mm, bb].concat(l), [b2i(sig[ss] == mulSub(h[2 * mm + bb], l.foldl(0, (acc, a) => acc + e[a])))])
    }
    else {
      val l = if (how < 3 or how > 7 or n == 0) plan
        else if (how == 3) range(0, n).foldl([], (o, a) => o.append(plan[n - 1 - a]))
        else if (how == 4) plan.slice(1, n)
        else if (how == 5) { val x = (if (nils == [] or s == 0) p else nils[picks % length(nils)], m)
                             if (s < 2) plan.append(x) else [x].concat(plan) }
        else if (how == 6) plan.replaceAt(0, (p, m))
        else range(0, len).foldl([], (o, a) => o.append(((picks / 8^a) % 4, (picks / 8^a) / 4 % 2)))
      // lists of different length now and then
      val extra = if (picks % 16 == 0) [p] else []
      val ps = l.foldl([], (o, t) => o.append(t._1)).concat(if (s > 0) extra else [])
      val ms = l.foldl([], (o, t) => o.append(t._2)).concat(if (s > 0) [] else extra.foldl([], (o, x) => o.append(x % 2)))
      keepAll("aggregate", [ss, bb, length(ps)].concat(ps).concat(ms),
        [b2i(length(ps) == length(ms) and sig[ss] == valid(l, bb))])
    }
  }

  action step = {
    nondet w = 0.to(9).oneOf()
    if (ev.op == "sign" and w < 4) verify(plan[0]._2, where[0], plan[0]._1, where[1])
    else if (Set("sign", "signList").contains(ev.op) and w < 8) check
    else if (ev.op == "verify" and ev.r == [1] and w < 6) touch
    else if (Set("addPub", "addSig", "passPub", "passSig", "replacePub", "replaceSig", "msg", "dom").contains(ev.op) and w < 6) verify(last[0], last[1], last[2], last[3])
    else if (Set("verify", "verifyPlain", "common", "aggregate").contains(ev.op) and w < 6) check
    else make
  }

  val inv = and {
    sk.indices().forall(k => e[k] == sk[k]),
    pk.indices().forall(k => (pk[k] == []) == (e[k] == 0) and onCurve(pk[k], B1)),
    sig.indices().forall(k => onCurve(sig[k], B2)),
  }
}
