------------------------------- MODULE MC_Crc -------------------------------
(* What the frame checksum guarantees.  The CRC is affine: the difference   *)
(* of the checksums of two payloads of equal length is the checksum with    *)
(* initial value 0 of their difference.  So an error pattern (a difference  *)
(* of payload and checksum) goes undetected iff its syndrome is 0, and the  *)
(* syndrome is the sum of the syndromes of its bits.                        *)
EXTENDS Bytes, FiniteSets, TLC, IOUtils

MaxBits == 8 * 255 + 16
\* multiplication by x modulo the polynomial
ByX(c) == IF c >= 32768 THEN ((c * 2) % 65536) ^^ 4129 ELSE c * 2
RECURSIVE Powers(_, _)
Powers(n, acc) == IF n = 0 THEN acc ELSE Powers(n - 1, Append(acc, ByX(acc[Len(acc)])))
\* Synd[i]: syndrome of an error in the i-th bit from the end of payload \o checksum
Synd == Powers(MaxBits - 1, <<1>>)

Crc0(bytes) == FoldLeft(CrcStep, 0, bytes)
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE Parity(_)
Parity(v) == IF v = 0 THEN 0 ELSE ((v % 2) + Parity(v \div 2)) % 2
\* the set of syndromes of bursts of at most 16 bits at the end: all non-zero
Patterns == 1..65535
SyndPattern(p) == p       \* degree < 16: its own remainder

VARIABLE i
Init == i \in 1..MaxBits
Next == FALSE /\ UNCHANGED i

(* the table driven definition agrees with the algebra: a single bit at position i *)
Agrees == i > 16 => LET k == i - 17
                        n == k \div 8 + 1 IN Crc0(<<2 ^ (k % 8)>> \o Zeros(n - 1)) = Synd[i]
OneBit == Synd[i] # 0
(* two bits: their syndromes differ *)
TwoBits == \A j \in 1..(i - 1) : Synd[j] # Synd[i]
(* three bits (and any odd number): every syndrome has odd parity, since x+1 divides the polynomial,
   so no sum of an odd number of them is 0 *)
OddBits == Parity(Synd[i]) = 1
(* bursts: a pattern of at most 16 bits shifted by i-1 places is a non-zero polynomial of degree < 16
   times x^(i-1); multiplication by x is injective on 0..65535, so it never becomes 0 *)
Injective == i = 1 => Cardinality({ByX(v) : v \in 0..65535}) = 65536
Affine == i <= 255 => LET a == [j \in 1..i |-> (j * 37 + i) % 256]
                          b == [j \in 1..i |-> (j * j + 11 * i) % 256]
                      IN (Crc16(a) ^^ Crc16(b)) = Crc0([j \in 1..i |-> a[j] ^^ b[j]])
Check == Crc16(<<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = 10673      \* "123456789" -> 0x29B1
=============================================================================
