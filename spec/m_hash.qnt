// Hashing: messages to points of either group, messages with a domain, seeds to secret keys. The
// last message and its image stay live, so that results are independent values and calls do not
// influence each other.
module m_hash {
  import params.* from "./params"
  import num.* from "./num"
  import curveOver(P = Q).* from "./curve"
  import curve.* from "./curve"
  import codec.* from "./codec"
  import h2c.* from "./h2c"
  import rare.* from "./rare"

  type Event = { op: str, i: List[int], r: List[int] }
  var msg: List[int]
  var img: List[int]
  var ev: Event

  // lengths at which padding, block count or copying change
  pure val LENS = Set(0, 1, 2, 8, 31, 32, 33, 40, 48, 53, 54, 55, 56, 57, 61, 62, 63, 64, 65, 95, 96, 117, 118, 119, 120, 126, 127, 128, 129, 183, 191)
  pure def flat(p: List[int]): List[int] = if (p == []) [1] else [0].concat(p)
  pure def onTheCurve(p: List[int]): bool = if (length(p) == 2) onCurve(p, B1) else onCurve(p, B2)

  // n bytes: uniform, constant, or periodic
  pure def bytesOf(kind: int, n: int, u: int): List[int] =
    if (kind < 5) { val b = toBytes(u, 64)  range(0, n).foldl([], (l, i) => l.append(b[(i + i / 64) % 64])) }
    else if (kind == 5) zeros(n)
    else if (kind == 6) range(0, n).foldl([], (l, _i) => l.append(255))
    else range(0, n).foldl([], (l, i) => l.append((u + i) % 256))
  // a variation of the last message that keeps its length
  pure def vary(m: List[int], u: int): List[int] =
    if (m == []) [u % 256] else { val k = u % length(m)
      m.replaceAt(k, if (u % 3 == 0) (m[k] + 1) % 256 else if (u % 3 == 1) (m[k] + 128) % 256 else (m[k] + 255) % 256) }

  action done(o: str, m: List[int], p: List[int], res: List[int]): bool =
    all { msg' = m, img' = p, ev' = { op: o, i: m, r: res } }

  action init = all { msg' = [], img' = [], ev' = { op: "init", i: [], r: [] } }

  action toG1(m: List[int]): bool = { val p = hash1(m)  done("hash1", m, p, flat(p)) }
  action toG2(m: List[int]): bool = { val p = hash2(m)  done("hash2", m, p, flat(p)) }
  action withDomain(m: List[int]): bool = { val p = hashDomain(m.slice(0, 32), m.slice(32, 40))  done("domain", m, p, flat(p)) }
  action toScalar(m: List[int]): bool = { val s = hashSecret(m)  done("secret", m, [s], [s]) }

  action stepMessage = {
    nondet op = 0.to(1).oneOf()
    nondet how = 0.to(19).oneOf()
    nondet kind = 0.to(7).oneOf()
    nondet n = LENS.oneOf()
    nondet m0 = 0.to(40).oneOf()
    nondet u = 0.to(2^512 - 1).oneOf()
    val m = if (how < 8) bytesOf(kind, if (u % 40 == 0) 250 + m0 * 5 else n, u)
      else if (how < 11 or how == 18 or how == 19) vary(msg, u)
      else if (how == 11) msg.append(u % 256)
      else if (how == 12) (if (msg == []) [0] else msg.slice(0, length(msg) - 1))
      else if (how == 13) [u % 4].concat(msg)
      else if (how == 14) bytesOf(kind, m0, u)
      else if (how < 17) rareMessage(u)
      // the message again
      else msg
    if (op == 0) toG1(m) else toG2(m)
  }
  // lengths around powers of two, up to 2^17 bytes
  action stepLong = {
    nondet op = 0.to(1).oneOf()
    nondet lg = Set(9, 10, 11, 12, 13, 14).oneOf()
    nondet d = 0.to(20).oneOf()
    nondet kind = 0.to(7).oneOf()
    nondet u = 0.to(2^512 - 1).oneOf()
    val m = bytesOf(kind, 2^lg + d - 12, u)
    if (op == 0) toG1(m) else toG2(m)
  }
  action stepHuge = {
    nondet op = 0.to(1).oneOf()
    nondet d = 0.to(40).oneOf()
    nondet u = 0.to(2^512 - 1).oneOf()
    val m = bytesOf(0, 65536 + d - 20, u)
    if (op == 0) toG1(m) else toG2(m)
  }
  action stepDomain = {
    nondet how = 0.to(13).oneOf()
    nondet kind = 0.to(7).oneOf()
    nondet u = 0.to(2^512 - 1).oneOf()
    val m = if (how < 6 or length(msg) != 40) bytesOf(kind, 40, u)
      else if (how < 9) vary(msg, u)
      // only the domain, or the two halves exchanged
      else if (how == 9) msg.slice(0, 32).concat(toBytes(u % 256, 8))
      else if (how == 10) msg.slice(8, 40).concat(msg.slice(0, 8))
      else if (how < 13) rareDomain(u)
      else msg
    withDomain(m)
  }
  action stepSecret = {
    nondet how = 0.to(10).oneOf()
    nondet kind = 0.to(7).oneOf()
    nondet u = 0.to(2^512 - 1).oneOf()
    val m = if (how < 6 or length(msg) != 32) bytesOf(kind, 32, u) else if (how < 9) vary(msg, u)
      else if (how == 9) rareSeed(u) else msg
    toScalar(m)
  }
  action step = stepMessage

  // images are points of the curves (secret keys: numbers below the group order)
  val inv = if (ev.op == "secret") img[0] >= 0 and img[0] < R else onTheCurve(img)

  // images lie in the prime-order subgroups; the vectors of other implementations
  run hashTest = all {
    assert(range(0, 5).indices().forall(i => pmul(hash1([i]), R) == [] and pmul(hash2([i]), R) == [] and pmul(hashDomain(zeros(32), zeros(7).append(i)), R) == [])),
    // "the message to be signed"
    assert(hash2([116, 104, 101, 32, 109, 101, 115, 115, 97, 103, 101, 32, 116, 111, 32, 98, 101, 32, 115, 105, 103, 110, 101, 100]) == [
      0xcac64370233bfc0a5cb46981969ef1aec583bb661084c7940581cda548f5bf015c74bf23ccdb87816a3cd96ebdb2bfd,
      0x11f6e0fdfbc31b55c04cda9c896099c9f135c2eb2c504cfe0b98e98ef0e511583a9b1eb47b4c19904d820c2eab6608a9,
      0x19ffc47d113a320834d1b3979a932c1224195be2cd83b7cd70e1800b56d9a8b94a3ce0e303cdda31e191ecc48223906f,
      0xc75d7aae0477efd4219f9d01950fa9e83378162d7befe1e9df0e506503f04d7a49250d6a85f09dffa245a8fe583d3fd]),
  }
}
