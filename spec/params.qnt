// BLS12-381: the constants of the curve, as integers.
module params {
  // base field and group order; X is the absolute value of the (negative) curve parameter
  pure val Q = 4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787
  pure val R = 52435875175126190479447740508185965837690552500527637822603658699938581184513
  pure val X = 15132376222941642752
  // Montgomery radices of the two representations, and the inverses of the radices
  pure val RADQ = 2^384
  pure val RADR = 2^256
  pure val B64 = 2^64
}
