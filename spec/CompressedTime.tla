--------------------------- MODULE CompressedTime ---------------------------
(* Compressed time: 3 bits exponent, 5 bits mantissa, 4^exp * mant ticks.   *)
EXTENDS Integers, Sequences
Pow4 == <<1, 4, 16, 64, 256, 1024, 4096, 16384>>
Value(e, m) == Pow4[e + 1] * m
OctetOf(e, m) == e * 32 + m
MaxDuration == Value(7, 31)
None == <<-1, -1>>
\* the smallest exponent whose largest value is not below v
ExpFor(v) == CHOOSE e \in 0..7 : v <= Value(e, 31) /\ \A f \in 0..(e - 1) : v > Value(f, 31)
Compress(v, up) ==
  IF v > MaxDuration THEN None
  ELSE LET e == ExpFor(v)  u == Pow4[e + 1] IN <<e, IF up THEN (v + u - 1) \div u ELSE v \div u>>
=============================================================================
