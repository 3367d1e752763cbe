------------------------------- MODULE Bytes -------------------------------
(* Octet-level vocabulary shared by all modules: bit extraction, two's      *)
(* complement, big-endian packing and the CRC-16/CCITT-FALSE used on the    *)
(* serial interface.  TLC integers are 32 bit, so anything wider than 30    *)
(* bits is kept as a sequence of octets ("limbs", most significant first).  *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

Octet == 0..255
IsOctets(s) == \A i \in 1..Len(s) : s[i] \in Octet

\* value of w bits (w <= 24) of octet string b starting at bit position pos
\* (bit 0 is the most significant bit of the first octet)
BitsAt(b, pos, w) ==
  LET first == pos \div 8
      last  == (pos + w - 1) \div 8
      all   == CASE last = first     -> b[first+1]
                 [] last = first + 1 -> b[first+1] * 256 + b[first+2]
                 [] last = first + 2 -> (b[first+1] * 256 + b[first+2]) * 256 + b[first+3]
      drop  == (last + 1) * 8 - (pos + w)
  IN  (all \div (2^drop)) % (2^w)

Signed8(v)   == IF v > 127 THEN v - 256 ELSE v
Unsigned8(v) == IF v < 0 THEN v + 256 ELSE v

Slice(b, from, n) == SubSeq(b, from, from + n - 1)   \* 1-based

U16(v) == <<v \div 256, v % 256>>

(* ---------------------------- CRC-16/CCITT-FALSE ------------------------ *)
RECURSIVE CrcShift(_, _)
CrcShift(c, n) ==
  IF n = 0 THEN c
  ELSE CrcShift(IF c >= 32768 THEN ((c * 2) % 65536) ^^ 4129 ELSE c * 2, n - 1)

CrcTable == [x \in 0..255 |-> CrcShift(x * 256, 8)]

CrcStep(c, x) == ((c * 256) % 65536) ^^ CrcTable[(c \div 256) ^^ x]
Crc16(bytes)  == FoldLeft(CrcStep, 65535, bytes)

(* index of the first 0xC0 in s at position >= from, 0 if there is none *)
RECURSIVE NextIndex(_, _, _)
NextIndex(s, v, from) ==
  IF from > Len(s) THEN 0 ELSE IF s[from] = v THEN from ELSE NextIndex(s, v, from + 1)
=============================================================================
