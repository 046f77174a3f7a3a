// The signature scheme of one package: secret sk, public sk (those of the sk, and aggregates),
// messages with their images, signatures. Public sk are in the group of degree PUB, signatures and
// message images in that of degree 3 - PUB. `plan` is the list of (public key, message) the last
// aggregate signature was made for, `cplan` the last list of sk that signed a common message.
module m_scheme {
  import params.* from "./params"
  import num.* from "./num"
  import curveOver(P = Q).* from "./curve"
  import curve.* from "./curve"
  import codec.* from "./codec"
  import h2c.* from "./h2c"

  const PUB: int

  type Event = { op: str, i: List[int], r: List[int] }
  var sk: List[int]            // 3 secret exponents
  var e: List[int]               // exponents of the 5 public sk: 0..2 belong to the sk
  var pk: List[List[int]]        // the public sk
  var msg: List[List[int]]       // 4 messages
  var h: List[List[int]]         // their images
  var sig: List[List[int]]       // 4 signatures
  var plan: List[(int, int)]
  var cplan: (List[int], int)
  // message, public key and register of a signature made singly, wherever they were passed on to; and
  // of the last verification that succeeded
  var last: List[int]
  var ev: Event

  pure val GP = if (PUB == 1) G1 else G2
  pure val GS = if (PUB == 1) G2 else G1
  pure val NKEY = 3
  pure val NPUB = 5
  pure val NMSG = 4
  pure val NSIG = 4
  pure def hashOf(m: List[int]): List[int] = if (PUB == 1) hash2(m) else hash1(m)
  pure def b2i(b: bool): int = if (b) 1 else 0
  pure def mulSub(x: List[int], n: int): List[int] = pmul(x, md(n, R))
  pure def sumPts(l: List[List[int]]): List[int] = l.foldl([], (acc, x) => padd(acc, x))

  // the unique valid signature for a list of (public key, message)
  def valid(l: List[(int, int)]): List[int] = l.foldl([], (acc, t) => padd(acc, mulSub(h[t._2], e[t._1])))
  def distinct(l: List[int]): bool =
    l.indices().forall(i => l.indices().forall(j => i == j or msg[l[i]] != msg[l[j]]))

  action keepAll(o: str, ins: List[int], res: List[int]): bool =
    all { sk' = sk, e' = e, pk' = pk, msg' = msg, h' = h, sig' = sig, plan' = plan, cplan' = cplan, last' = last, ev' = { op: o, i: ins, r: res } }
  action setSig(d: int, s: List[int], o: str, ins: List[int]): bool =
    all { sk' = sk, e' = e, pk' = pk, msg' = msg, h' = h, sig' = sig.replaceAt(d, s), plan' = plan, cplan' = cplan, last' = last, ev' = { op: o, i: ins, r: [] } }
  action setSigLast(d: int, s: List[int], l: List[int], o: str, ins: List[int]): bool =
    all { sk' = sk, e' = e, pk' = pk, msg' = msg, h' = h, sig' = sig.replaceAt(d, s), plan' = plan, cplan' = cplan, last' = l, ev' = { op: o, i: ins, r: [] } }
  action setPub(d: int, x: int, p: List[int], o: str, ins: List[int]): bool =
    all { sk' = sk, e' = e.replaceAt(d, x), pk' = pk.replaceAt(d, p), msg' = msg, h' = h, sig' = sig, plan' = plan, cplan' = cplan, last' = last, ev' = { op: o, i: ins, r: [] } }

  pure val START: List[List[int]] = [[], [0], toBytes(2^255 + 77, 32), toBytes(2^254 + 78, 32)]
  action init = all {
    sk' = [1, 2, 3], e' = [1, 2, 3, 0, 1],
    pk' = [GP, pmul(GP, 2), pmul(GP, 3), [], GP],
    msg' = START, h' = START.foldl([], (l, m) => l.append(hashOf(m))),
    sig' = [[], GS, [], []], plan' = [], cplan' = ([], 0), last' = [0, 0, 0, 0, 0, 0], ev' = { op: "init", i: [], r: [] } }

  pure def scalar(kind: int, u: int, other: int): int =
    md(if (kind == 0) 0 else if (kind == 1) 1 else if (kind == 2) R - 1 else if (kind == 3) -other else if (kind == 4) other
       else if (kind == 5) other + 1 else if (kind == 6) 2^(u % 255) else u, R)

  pure def message(kind: int, m: List[int], u: int, n: int): List[int] =
    if (kind == 0) m                                                  // the content of another register
    else if (kind == 1) []
    else if (kind == 2) m.append(0)
    else if (kind == 3) (if (m == []) [0] else m.slice(0, length(m) - 1))
    else if (kind == 4) (if (m == []) [255] else m.replaceAt(u % length(m), (m[u % length(m)] + 1) % 256))
    else if (kind == 5) (if (m == []) [128] else m.replaceAt(length(m) - 1, (m[length(m) - 1] + 128) % 256))
    else if (kind == 6) toBytes(u, if (u % 2 == 0 and length(m) > 4) length(m) else 32)
    // long ones that differ late
    else if (kind == 7) (if (length(m) > 64) m.replaceAt(length(m) - 1 - u % 3, (m[length(m) - 1 - u % 3] + u % 5) % 256)
                         else range(0, 60 + 7 * n).foldl([], (l, _i) => l.append(u % 4)).append(u % 3))
    else toBytes(u, n)

  pure def pubsOf(l: List[(int, int)]): List[int] = l.foldl([], (o, t) => o.append(t._1))
  pure def msgsOf(l: List[(int, int)]): List[int] = l.foldl([], (o, t) => o.append(t._2))

  // ---- making sk, messages and signatures ----
  action make = {
    nondet op = 0.to(12).oneOf()
    nondet d = 0.to(3).oneOf()
    nondet i = 0.to(3).oneOf()
    nondet j = 0.to(4).oneOf()
    nondet kind = 0.to(9).oneOf()
    nondet u = 0.to(2^256 - 1).oneOf()
    nondet n = Set(1, 4, 31, 33, 54, 55, 63, 64).oneOf()
    nondet len = 0.to(4).oneOf()
    nondet picks = 0.to(5^4 - 1).oneOf()
    nondet style = 0.to(3).oneOf()
    val k = d % NKEY
    // key number k and its public key
    if (op == 0) {
      val x = scalar(kind, u, sk[i % NKEY])
      val p = pmul(GP, x)
      all { sk' = sk.replaceAt(k, x), e' = e.replaceAt(k, x), pk' = pk.replaceAt(k, p),
            msg' = msg, h' = h, sig' = sig, plan' = plan, cplan' = cplan, last' = last, ev' = { op: "key", i: [k, x], r: [] } }
    }
    else if (op == 1) {
      val seed = toBytes(u, 32)
      val x = hashSecret(seed)
      val p = pmul(GP, x)
      all { sk' = sk.replaceAt(k, x), e' = e.replaceAt(k, x), pk' = pk.replaceAt(k, p),
            msg' = msg, h' = h, sig' = sig, plan' = plan, cplan' = cplan, last' = last, ev' = { op: "derive", i: [k].concat(seed), r: [] } }
    }
    else if (op == 2) {
      val m = message(kind, msg[i], u, n)
      all { sk' = sk, e' = e, pk' = pk, msg' = msg.replaceAt(d, m), h' = h.replaceAt(d, hashOf(m)),
            sig' = sig, plan' = plan, cplan' = cplan, last' = last, ev' = { op: "msg", i: [d].concat(m), r: [] } }
    }
    // an aggregate public key in one of the registers 3 and 4
    else if (op == 3) {
      val l = range(0, len).foldl([], (o, a) => o.append((picks / 5^a) % 5))
      val x = l.foldl(0, (s, a) => (s + e[a]) % R)
      setPub(3 + d % 2, x, sumPts(l.foldl([], (o, a) => o.append(pk[a]))), "aggPub", [3 + d % 2, style].concat(l))
    }
    else if (op == 4) setPub(3 + d % 2, (e[3 + d % 2] + e[j]) % R, padd(pk[3 + d % 2], pk[j]), "addPub", [3 + d % 2, j])
    else if (op == 5) setSigLast(d, mulSub(h[i], sk[j % NKEY]), [i, j % NKEY, d].concat(last.slice(3, 6)), "sign", [d, i, j % NKEY])
    else if (op == 6) {
      val l = range(0, len).foldl([], (o, a) => o.append((picks / 5^a) % NSIG))
      setSig(d, sumPts(l.foldl([], (o, a) => o.append(sig[a]))), "aggSig", [d, style].concat(l))
    }
    else if (op == 7) setSig(d, padd(sig[d], sig[i]), "addSig", [d, i])
    // one way or another a signature that is almost the right one
    else if (op == 8) (if (style == 0) setSig(d, pneg(sig[i]), "putSig", [d].concat(pneg(sig[i])))
                       else if (style == 1) { val s = padd(sig[i], GS)  setSig(d, s, "putSig", [d].concat(s)) }
                       else if (style == 2) setSig(d, [], "blankSig", [d])
                       else setSig(d, h[i], "putSig", [d].concat(h[i])))
    // signatures and sk that went through serialization, copying, re-wrapping
    else if (op == 9) setSigLast(d, sig[i], if (last[2] == i) last.replaceAt(2, d) else last, "passSig", [d, i, style])
    else if (op == 10) (if (kind < 7) setPub(3 + d % 2, e[j], pk[j], "passPub", [3 + d % 2, j, style])
                        else keepAll("passKey", [k, style], []))
    // the aggregate over distinct message registers, for sk in any combination
    else if (op == 11) {
      val l = range(0, len).foldl([], (o, a) => o.append(((picks / 5^a) % NKEY, (i + a) % NMSG)))
      all { sk' = sk, e' = e, pk' = pk, msg' = msg, h' = h, sig' = sig.replaceAt(d, valid(l)), plan' = l, cplan' = cplan, last' = last,
            ev' = { op: "signList", i: [d, style, len].concat(pubsOf(l)).concat(msgsOf(l)), r: [] } }
    }
    else {
      val l = range(0, len).foldl([], (o, a) => o.append((picks / 5^a) % NKEY))
      val s = valid(l.foldl([], (o, a) => o.append((a, i))))
      all { sk' = sk, e' = e, pk' = pk, msg' = msg, h' = h, sig' = sig.replaceAt(d, s), plan' = plan, cplan' = (l, i), last' = last,
            ev' = { op: "signCommon", i: [d, style, i].concat(l), r: [] } }
    }
  }

  // ---- verification ----
  action single = {
    nondet s = 0.to(3).oneOf()
    nondet m = 0.to(3).oneOf()
    nondet p = 0.to(4).oneOf()
    // the last two: another message of the same length for the signature
    nondet how = 0.to(9).oneOf()
    val like = range(0, NMSG).select(k => k != last[0] and length(msg[k]) == length(msg[last[0]]))
    val mm = if (how <= 4) last[0] else if (how >= 8 and like != []) like[m % length(like)] else m
    val pp = if (how <= 3 or how == 5 or how >= 8) last[1] else p
    val ss = if (how <= 5 or how >= 8) last[2] else s
    // where the key is one of those that grow, now and then
    val twins = range(NKEY, NPUB).select(k => e[k] == e[pp])
    verify(mm, if (twins == []) pp else twins[m % length(twins)], ss)
  }
  action verify(m: int, p: int, s: int): bool = {
    val ok = sig[s] == mulSub(h[m], e[p])
    all { sk' = sk, e' = e, pk' = pk, msg' = msg, h' = h, sig' = sig, plan' = plan, cplan' = cplan,
          last' = if (ok) last.slice(0, 3).concat([m, p, s]) else last, ev' = { op: "verify", i: [m, p, s], r: [b2i(ok)] } }
  }
  // one of the objects of a verification that succeeded changes in place, or is passed on to one that can
  action touch = {
    nondet what = 0.to(5).oneOf()
    nondet j = 0.to(4).oneOf()
    nondet i = 0.to(3).oneOf()
    nondet style = 0.to(3).oneOf()
    val p = last[4]
    if (what <= 2) {
      if (p >= NKEY) setPub(p, (e[p] + e[j]) % R, padd(pk[p], pk[j]), "addPub", [p, j])
      else all { sk' = sk, e' = e.replaceAt(3 + j % 2, e[p]), pk' = pk.replaceAt(3 + j % 2, pk[p]), msg' = msg, h' = h, sig' = sig, plan' = plan, cplan' = cplan,
                 last' = last.replaceAt(4, 3 + j % 2), ev' = { op: "passPub", i: [3 + j % 2, p, style], r: [] } }
    }
    else if (what == 3) setSig(last[5], padd(sig[last[5]], sig[i]), "addSig", [last[5], i])
    else if (what == 4) setSig(last[5], sig[i], "replaceSig", [last[5], i])
    else { val o = 3 + j % 2  setPub(o, e[(i + j) % NKEY], pk[(i + j) % NKEY], "replacePub", [o, (i + j) % NKEY]) }
  }

  action aggregate = {
    nondet s = 0.to(3).oneOf()
    nondet how = 0.to(13).oneOf()
    nondet p = 0.to(4).oneOf()
    nondet m = 0.to(3).oneOf()
    nondet last = 0.to(4).oneOf()
    nondet picks = 0.to(20^4 - 1).oneOf()
    nondet len = 0.to(4).oneOf()
    val n = length(plan)
    val nils = range(0, NPUB).select(k => pk[k] == [])
    val l = if (how < 3 or (n == 0 and how < 9)) plan
      else if (how == 3) range(0, n).foldl([], (o, a) => o.append(plan[n - 1 - a]))
      else if (how == 4) plan.slice(1, n)
      // one more signer, often the identity, whose share is nothing
      else if (how == 5 or (how == 9 and nils != [])) {
        val x = (if (nils == [] or (how == 5 and last < 2)) p else nils[s % length(nils)], m)
        if (s < 2) plan.append(x) else [x].concat(plan)
      }
      else if (how == 6) plan.replaceAt(0, (p, plan[0]._2))
      else if (how == 7) plan.replaceAt(n - 1, (plan[n - 1]._1, m))
      else if (how == 8) plan.replaceAt(0, (plan[0]._1, plan[n - 1]._2)).replaceAt(n - 1, (plan[n - 1]._1, plan[0]._2))
      else range(0, len).foldl([], (o, a) => o.append(((picks / 20^a) % 5, (picks / 20^a) / 5 % 4)))
    // the register the plan was signed into, usually
    val ss = if (last < 4 and (ev.op == "signList" or ev.op == "addSig" or ev.op == "verifyAgg")) ev.i[0] else s
    val ps = if (how == 12) pubsOf(l).append(p) else pubsOf(l)
    val ms = if (how == 13) msgsOf(l).append(m) else msgsOf(l)
    keepAll("verifyAgg", [ss, length(ps)].concat(ps).concat(ms),
      [b2i(length(ps) == length(ms) and distinct(ms) and sig[ss] == valid(l))])
  }
  action common = {
    nondet s = 0.to(3).oneOf()
    nondet how = 0.to(7).oneOf()
    nondet p = 0.to(4).oneOf()
    nondet m = 0.to(3).oneOf()
    nondet last = 0.to(4).oneOf()
    val n = length(cplan._1)
    val l = if (how < 3 or (n == 0 and how < 6)) cplan._1
      else if (how == 3) range(0, n).foldl([], (o, a) => o.append(cplan._1[n - 1 - a]))
      else if (how == 4) cplan._1.slice(1, n)
      else if (how == 5) cplan._1.replaceAt(0, p)
      else if (how == 6) cplan._1.append(p)
      else [p]
    val ss = if (last < 4 and (ev.op == "signCommon" or ev.op == "addSig" or ev.op == "common")) ev.i[0] else s
    val mm = if (how == 2) m else cplan._2
    keepAll("common", [ss, mm].concat(l),
      [b2i(sig[ss] == mulSub(h[mm], l.foldl(0, (acc, a) => acc + e[a])))])
  }

  action stepVerify = {
    nondet w = 0.to(9).oneOf()
    if (ev.op == "sign" and w < 6) single
    else if (ev.op == "verify" and ev.r == [1] and w < 5) touch
    else if ((ev.op == "addPub" or ev.op == "addSig" or ev.op == "passPub" or ev.op == "replaceSig" or ev.op == "replacePub") and w < 7) verify(last[3], last[4], last[5])
    else if (w < 5) make else single
  }
  // right after signing a list, verify it or a variation
  action stepAggregate = {
    nondet w = 0.to(9).oneOf()
    if (ev.op == "signList" and w < 7) aggregate
    else if (ev.op == "signCommon" and w < 7) common
    else if (ev.op == "verifyAgg" and w < 3) aggregate
    else if (ev.op == "common" and w < 2) common
    // the aggregate that was just verified goes on growing
    else if ((ev.op == "verifyAgg" or ev.op == "common") and ev.r == [1] and w < 5) { nondet i = 0.to(3).oneOf()
      setSig(ev.i[0], padd(sig[ev.i[0]], sig[i]), "addSig", [ev.i[0], i]) }
    else if (ev.op == "addSig" and w < 4) (if (w < 2) aggregate else common)
    else if (w < 8) make else if (w == 8) aggregate else common
  }
  action step = stepVerify

  val inv = and {
    sk.indices().forall(k => e[k] == sk[k]),
    pk.indices().forall(k => (pk[k] == []) == (e[k] == 0) and onCurve(pk[k], bOf(PUB))),
    sig.indices().forall(k => onCurve(sig[k], bOf(3 - PUB))),
    // aggregation is the sum whatever the grouping: checked on what was just aggregated
    (ev.op == "aggPub") implies pk[ev.i[0]] == pmul(GP, e[ev.i[0]]),
  }
}
module m_scheme1 {
  import m_scheme(PUB = 1).*
}
module m_scheme2 {
  import m_scheme(PUB = 2).*
}
