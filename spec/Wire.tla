-------------------------------- MODULE Wire --------------------------------
(* A layout is a sequence of field descriptors.  Two operators interpret a  *)
(* layout: Dec reads octets into an ordered list of tokens, Enc writes such *)
(* a list back.  A token is <<name, limbs>>; limbs is a sequence of         *)
(* integers (one element for ordinary fields, octets for wide ones).        *)
(*                                                                          *)
(* Dec verdicts (field why of the result):                                  *)
(*   ""       decoded, pos is the bit position after the last field         *)
(*   "short"  the octets end before the layout does                         *)
(*   "bad"    a field holds a value that is not allowed                     *)
(*   "unspec" the layout does not say what happens (see Unspec below)       *)
EXTENDS Bytes, TLC

Fld(n, w, vals) == [k |-> "u", n |-> n, w |-> w, vals |-> vals]
U(n, w)    == Fld(n, w, 0..(2^w - 1))
U8(n)      == U(n, 8)
Bit(n)     == U(n, 1)
S8(n)      == [k |-> "s", n |-> n, vals |-> -128..127]
Rfu(w)     == [k |-> "r", w |-> w]
Wide(n, c) == [k |-> "w", n |-> n, c |-> c]         \* c octets, big endian
LEWide(n, c) == [k |-> "le", n |-> n, c |-> c]      \* c octets, little endian on the wire
AlpLen(n)  == [k |-> "L", n |-> n]                  \* 1..4 octet length coding
Data(n, ln) == [k |-> "D", n |-> n, ln |-> ln]      \* as many octets as token ln says
When(n, vals, sub) == [k |-> "if", n |-> n, vals |-> vals, sub |-> sub]
Rep(n, sub(_), max) == [k |-> "rep", n |-> n, subs |-> [i \in 1..max |-> sub(i)]]
Forbid     == [k |-> "forbid"]
Unspec     == [k |-> "unspec"]

RECURSIVE Lookup(_, _, _)
Lookup(toks, n, i) ==
  IF i = 0 THEN <<-1>> ELSE IF toks[i][1] = n THEN toks[i][2] ELSE Lookup(toks, n, i - 1)
Val(toks, n)  == Lookup(toks, n, Len(toks))[1]
Limbs(toks, n) == Lookup(toks, n, Len(toks))
Has(toks, n)  == \E i \in 1..Len(toks) : toks[i][1] = n

R(why, pos, toks) == [why |-> why, pos |-> pos, toks |-> toks]

LenSize(v) == IF v > 4194303 THEN 4 ELSE IF v > 16383 THEN 3 ELSE IF v > 63 THEN 2 ELSE 1
MaxLen == 1073741823
EncLen(v) ==
  LET sz == LenSize(v) IN
  CASE sz = 1 -> <<v>>
    [] sz = 2 -> <<64 + v \div 256, v % 256>>
    [] sz = 3 -> <<128 + v \div 65536, (v \div 256) % 256, v % 256>>
    [] sz = 4 -> <<192 + v \div 16777216, (v \div 65536) % 256, (v \div 256) % 256, v % 256>>

(* ------------------------------- decoding ------------------------------- *)
RECURSIVE DecSeq(_, _, _, _, _)
DecSeq(items, i, b, pos, toks) ==
  IF i > Len(items) THEN R("", pos, toks)
  ELSE
  LET it   == items[i]
      left == 8 * Len(b) - pos
      o    == pos \div 8                       \* octets consumed so far
  IN
  CASE it.k = "u" ->
         IF left < it.w THEN R("short", pos, toks)
         ELSE LET v == BitsAt(b, pos, it.w) IN
              IF v \in it.vals
              THEN DecSeq(items, i + 1, b, pos + it.w, Append(toks, <<it.n, <<v>> >>))
              ELSE R("bad", pos, toks)
    [] it.k = "s" ->
         IF left < 8 THEN R("short", pos, toks)
         ELSE LET v == Signed8(BitsAt(b, pos, 8)) IN
              IF v \in it.vals
              THEN DecSeq(items, i + 1, b, pos + 8, Append(toks, <<it.n, <<v>> >>))
              ELSE R("bad", pos, toks)
    [] it.k = "r" ->
         IF left < it.w THEN R("short", pos, toks)
         ELSE DecSeq(items, i + 1, b, pos + it.w, toks)
    [] it.k = "w" ->
         IF left < 8 * it.c THEN R("short", pos, toks)
         ELSE DecSeq(items, i + 1, b, pos + 8 * it.c,
                     Append(toks, <<it.n, Slice(b, o + 1, it.c)>>))
    [] it.k = "le" ->
         IF left < 8 * it.c THEN R("short", pos, toks)
         ELSE DecSeq(items, i + 1, b, pos + 8 * it.c,
                     Append(toks, <<it.n, Reverse(Slice(b, o + 1, it.c))>>))
    [] it.k = "L" ->
         IF left < 8 THEN R("short", pos, toks)
         ELSE LET sz == b[o + 1] \div 64 IN
              IF left < 8 * (sz + 1) THEN R("short", pos, toks)
              ELSE LET v == FoldLeft(LAMBDA a, x : a * 256 + x, b[o + 1] % 64, Slice(b, o + 2, sz))
                   IN DecSeq(items, i + 1, b, pos + 8 * (sz + 1), Append(toks, <<it.n, <<v>> >>))
    [] it.k = "D" ->
         LET n == Val(toks, it.ln) IN
         IF (left \div 8) < n THEN R("short", pos, toks)
         ELSE DecSeq(items, i + 1, b, pos + 8 * n, Append(toks, <<it.n, Slice(b, o + 1, n)>>))
    [] it.k = "if" ->
         IF Val(toks, it.n) \in it.vals
         THEN LET r == DecSeq(it.sub, 1, b, pos, toks) IN
              IF r.why # "" THEN r ELSE DecSeq(items, i + 1, b, r.pos, r.toks)
         ELSE DecSeq(items, i + 1, b, pos, toks)
    [] it.k = "rep" ->
         LET n == Val(toks, it.n)
             r == DecSeq(FlattenSeq(SubSeq(it.subs, 1, n)), 1, b, pos, toks) IN
         IF r.why # "" THEN r ELSE DecSeq(items, i + 1, b, r.pos, r.toks)
    [] it.k = "forbid" -> R("bad", pos, toks)
    [] it.k = "unspec" -> R("unspec", pos, toks)

Dec(layout, b, pos) == DecSeq(layout, 1, b, pos, <<>>)

(* ------------------------------- encoding ------------------------------- *)
(* Enc consumes the tokens in layout order.  acc/n hold the bits of the     *)
(* octet under construction.  Result: [ok, out]; ok is FALSE exactly when   *)
(* the token list is not a value the layout can represent.                  *)
E(ok, out) == [ok |-> ok, out |-> out]

RECURSIVE PutBits(_, _, _, _, _)
\* append the w low bits of v; returns <<out, acc, n>>
PutBits(out, acc, n, v, w) ==
  IF w = 0 THEN <<out, acc, n>>
  ELSE LET take == IF w < 8 - n THEN w ELSE 8 - n
           top  == (v \div (2^(w - take))) % (2^take)
           acc2 == acc * (2^take) + top
       IN IF n + take = 8
          THEN PutBits(Append(out, acc2), 0, 0, v, w - take)
          ELSE PutBits(out, acc2, n + take, v, w - take)

RECURSIVE EncSeq(_, _, _, _, _)
\* st = [ok, out, acc, n, j]: j is the number of tokens consumed
EncSeq(items, i, toks, st, dummy) ==
  IF ~st.ok \/ i > Len(items) THEN st
  ELSE
  LET it    == items[i]
      fail  == [st EXCEPT !.ok = FALSE]
      named == st.j < Len(toks) /\ toks[st.j + 1][1] = it.n
      lim   == toks[st.j + 1][2]
      Put(v, w) == LET p == PutBits(st.out, st.acc, st.n, v, w) IN
                   [st EXCEPT !.out = p[1], !.acc = p[2], !.n = p[3], !.j = st.j + 1]
      PutAll(s) == [st EXCEPT !.out = st.out \o s, !.j = st.j + 1]
      seen  == SubSeq(toks, 1, st.j)
      Next(s) == EncSeq(items, i + 1, toks, s, dummy)
  IN
  CASE it.k = "u" -> IF named /\ Len(lim) = 1 /\ lim[1] \in it.vals
                     THEN Next(Put(lim[1], it.w)) ELSE fail
    [] it.k = "s" -> IF named /\ Len(lim) = 1 /\ lim[1] \in it.vals
                     THEN Next(Put(Unsigned8(lim[1]), 8)) ELSE fail
    [] it.k = "r" -> LET p == PutBits(st.out, st.acc, st.n, 0, it.w) IN
                     Next([st EXCEPT !.out = p[1], !.acc = p[2], !.n = p[3]])
    [] it.k = "w" -> IF named /\ Len(lim) = it.c /\ IsOctets(lim) THEN Next(PutAll(lim)) ELSE fail
    [] it.k = "le" -> IF named /\ Len(lim) = it.c /\ IsOctets(lim) THEN Next(PutAll(Reverse(lim))) ELSE fail
    [] it.k = "L" -> IF named /\ Len(lim) = 1 /\ lim[1] \in 0..MaxLen
                     THEN Next(PutAll(EncLen(lim[1]))) ELSE fail
    [] it.k = "D" -> IF named /\ Len(lim) = Val(seen, it.ln) /\ IsOctets(lim)
                     THEN Next(PutAll(lim)) ELSE fail
    [] it.k = "if" -> IF Val(seen, it.n) \in it.vals
                      THEN Next(EncSeq(it.sub, 1, toks, st, dummy)) ELSE Next(st)
    [] it.k = "rep" -> Next(EncSeq(FlattenSeq(SubSeq(it.subs, 1, Val(seen, it.n))), 1, toks, st, dummy))
    [] OTHER -> fail

Enc(layout, toks) ==
  LET r == EncSeq(layout, 1, toks, [ok |-> TRUE, out |-> <<>>, acc |-> 0, n |-> 0, j |-> 0], 0)
  IN E(r.ok /\ r.j = Len(toks) /\ r.n = 0, r.out)
=============================================================================
