// Inputs of the hash functions, found by search, that meet what random ones do not: field elements,
// digests and scalars with two or three leading zero bytes or next to the modulus, and
// try-and-increment chains of 8 to 24 attempts. The tests below check that they are what they claim.
module rare {
  import params.* from "./params"
  import num.* from "./num"
  import sha256.* from "./sha256"
  import curveOver(P = Q).* from "./curve"
  import curve.* from "./curve"
  import h2c.* from "./h2c"

  pure def pad(l: int): List[int] = range(0, l).foldl([], (o, _i) => o.append(0))
  // messages: these numbers as eight bytes
  pure val RAREMSG: List[int] = [356, 12575, 28852, 9128, 4871, 24844, 12723, 1739, 16559, 27337, 58330, 87575, 85590, 193424, 1686488, 2294479, 2591800, 2702293, 2933365, 3099334, 4253368, 8126302]
  // seeds: 12 zero bytes, the number as eight bytes, 12 zero bytes
  pure val RARESEED: List[int] = [21255, 24540, 45157, 48376, 194525, 1592145, 4869417, 8076187]
  // messages with domain: 20 zero bytes, the number as eight bytes, 12 zero bytes
  pure val RAREDOM: List[int] = [116367, 268262, 275465, 12570869, 6497, 74209, 4184, 24684, 24678, 12718, 878, 17742, 1593, 101158, 617013, 161809, 315572, 447387, 1421986, 277752, 1005992]
  // ... and the number of increments of the last 15 of them
  pure val CHAIN: List[int] = [8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 24]

  pure def rareMessage(i: int): List[int] = toBytes(RAREMSG[i % length(RAREMSG)], 8)
  pure def rareSeed(i: int): List[int] = pad(12).concat(toBytes(RARESEED[i % length(RARESEED)], 8)).concat(pad(12))
  pure def rareDomain(i: int): List[int] = pad(20).concat(toBytes(RAREDOM[i % length(RAREDOM)], 8)).concat(pad(12))

  // scalars whose multiples of the generators have a coordinate with two or three leading zero bytes
  pure val SMALLK1: List[int] = [1010, 12884906836, 4294988409, 17180013519]
  pure val SMALLK2: List[int] = [17179870934, 4294968971, 4294969417, 17179874840, 4294992644, 17179919035]

  pure def near(v: int, m: int, bits: int): bool = v < 2^(bits - 16) or v > m - 2^(bits - 18)
  run rareTest = all {
    assert(range(0, length(RAREMSG)).indices().forall(i => {
      val pr = sha([1].concat(rareMessage(i)))
      val es = [expand(pr.append(0), 1), expand(pr.append(1), 1), expand(pr.append(0), 2), expand(pr.append(1), 2)]
      es.indices().exists(j => es[j] < 2^496 or near(es[j] % Q, Q, 384)) })),
    assert(range(0, length(RARESEED)).indices().forall(i => { val x = expand(sha(rareSeed(i)).append(0), 1)  x < 2^496 or near(x % R, R, 256) })),
    assert(range(0, length(CHAIN)).indices().forall(i => {
      val m = rareDomain(length(RAREDOM) - length(CHAIN) + i)
      val x = [fromBytes(sha(m.append(1))), fromBytes(sha(m.append(2)))]
      firstX(x, 128) == fadd(x, [CHAIN[i], 0]) })),
    assert(SMALLK1.indices().forall(i => { val p = pmul(G1, SMALLK1[i])  p.indices().exists(j => p[j] < 2^368) })),
    assert(SMALLK2.indices().forall(i => { val p = pmul(G2, SMALLK2[i])  p.indices().exists(j => p[j] < 2^368) })),
  }
}
