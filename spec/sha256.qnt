// SHA-256 on lists of bytes (FIPS 180-4). Exclusive or and majority are read off digit sums: the bits
// of three words, spread to base 4, add up without carries; the low bit of each digit is the
// exclusive or of the three bits, the high bit their majority.
module sha256 {
  import num.* from "./num"

  // 16 bits spread to 16 base-4 digits
  pure val SPREAD: List[int] = range(1, 16).foldl([0, 1], (l, _i) =>
    // the list for k bits from that for k-1: even entries repeat it four times wider, odd ones add one
    l.foldl([], (o, x) => o.append(4 * x).append(4 * x + 1)))
  // 8 base-4 digits to their low bits, and to their high bits
  pure val LOW: List[int] = range(1, 8).foldl([0, 1, 0, 1], (l, _i) =>
    l.foldl([], (o, x) => o.append(2 * x).append(2 * x + 1).append(2 * x).append(2 * x + 1)))
  pure val HIGH: List[int] = range(1, 8).foldl([0, 0, 1, 1], (l, _i) =>
    l.foldl([], (o, x) => o.append(2 * x).append(2 * x).append(2 * x + 1).append(2 * x + 1)))

  pure def spread(w: int): int = SPREAD[w / 65536] * 4294967296 + SPREAD[w % 65536]
  pure def low(s: int): int = LOW[s % 65536] + 256 * LOW[(s / 65536) % 65536]
    + 65536 * LOW[(s / 4294967296) % 65536] + 16777216 * LOW[s / 281474976710656]
  pure def high(s: int): int = HIGH[s % 65536] + 256 * HIGH[(s / 65536) % 65536]
    + 65536 * HIGH[(s / 4294967296) % 65536] + 16777216 * HIGH[s / 281474976710656]

  pure def xor3(a: int, b: int, c: int): int = low(spread(a) + spread(b) + spread(c))
  pure def maj(a: int, b: int, c: int): int = high(spread(a) + spread(b) + spread(c))
  // e ? f : g bit by bit
  pure def ch(e: int, f: int, g: int): int = {
    val s = spread(e)
    high(s + spread(f)) + high(6148914691236517205 - s + spread(g))
  }
  // rotation and shift to the right; p = 2^n
  pure def rot(x: int, p: int): int = x / p + (x % p) * (4294967296 / p)

  pure val K: List[int] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
    0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
    0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
    0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
    0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2]
  pure val IV: List[int] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19]

  type Regs = { a: int, b: int, c: int, d: int, e: int, f: int, g: int, h: int }

  pure def compressBlock(hs: List[int], blk: List[int]): List[int] = {
    val w0 = range(0, 16).foldl([], (l, i) => l.append(fromBytes(blk.slice(4 * i, 4 * i + 4))))
    val w = range(16, 64).foldl(w0, (l, i) => {
      val x = l[i - 15]
      val y = l[i - 2]
      l.append((l[i - 16] + xor3(rot(x, 128), rot(x, 262144), x / 8) + l[i - 7]
        + xor3(rot(y, 131072), rot(y, 524288), y / 1024)) % 4294967296)
    })
    val z = range(0, 64).foldl({ a: hs[0], b: hs[1], c: hs[2], d: hs[3], e: hs[4], f: hs[5], g: hs[6], h: hs[7] }, (s, i) => {
      val t1 = s.h + xor3(rot(s.e, 64), rot(s.e, 2048), rot(s.e, 33554432)) + ch(s.e, s.f, s.g) + K[i] + w[i]
      val t2 = xor3(rot(s.a, 4), rot(s.a, 8192), rot(s.a, 4194304)) + maj(s.a, s.b, s.c)
      { a: (t1 + t2) % 4294967296, b: s.a, c: s.b, d: s.c, e: (s.d + t1) % 4294967296, f: s.e, g: s.f, h: s.g }
    })
    [(hs[0] + z.a) % 4294967296, (hs[1] + z.b) % 4294967296, (hs[2] + z.c) % 4294967296, (hs[3] + z.d) % 4294967296,
     (hs[4] + z.e) % 4294967296, (hs[5] + z.f) % 4294967296, (hs[6] + z.g) % 4294967296, (hs[7] + z.h) % 4294967296]
  }

  pure def sha(msg: List[int]): List[int] = {
    val n = length(msg)
    val padded = range(0, md(55 - n, 64)).foldl(msg.append(128), (l, _i) => l.append(0)).concat(toBytes(8 * n, 8))
    range(0, length(padded) / 64).foldl(IV, (h, i) => compressBlock(h, padded.slice(64 * i, 64 * i + 64)))
      .foldl([], (l, x) => l.concat(toBytes(x, 4)))
  }

  run shaTest = all {
    assert(fromBytes(sha([])) == 0xe3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855),
    assert(fromBytes(sha([97, 98, 99])) == 0xba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad),
    // "abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"
    assert(fromBytes(sha(range(0, 14).foldl([], (l, i) => l.concat([97 + i, 98 + i, 99 + i, 100 + i]))))
      == 0x248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1),
    assert(fromBytes(sha(range(0, 55).foldl([], (l, _i) => l.append(97)))) == 0x9f4390f8d30c2dd92ec9f095b65e2b9ae9b0a925a5258e241c9f1e910f734318),
    assert(fromBytes(sha(range(0, 56).foldl([], (l, _i) => l.append(97)))) == 0xb35439a4ac6f0948b6d6f9e3c6af0f5f590ce20f1bde7090ef7970686ec6738a),
    assert(fromBytes(sha(range(0, 64).foldl([], (l, _i) => l.append(97)))) == 0xffe054fe7ae0cb6dc65c3af9b61d5209f439851db43d0ba5997337df154668eb),
  }
}
