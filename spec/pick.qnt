// Building limb patterns from nondeterministically chosen words.
module pick {
  import num.* from "./num"
  import pools.* from "./pools"

  // n 64-bit words as one number, chosen by `code`: each word is one of eight given words
  // (selected by the base-8 digits of the code)
  pure def pattern(code: int, n: int, w: List[int]): int =
    range(0, n).foldl((code, 0, 1), (s, _i) => (s._1 / 8, s._2 + w[s._1 % 8] * s._3, s._3 * 2^64))._2
}
