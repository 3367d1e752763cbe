---------------------------- MODULE ChannelText ----------------------------
(* Text forms of channels: three digits band, a letter for the class, a     *)
(* letter for the coding and, for a channel id, the index in decimal.       *)
(* Text is a sequence of character codes.                                   *)
EXTENDS Integers, Sequences, FiniteSets

Digit(c) == c \in 48..57
BandOf(s) == CASE s = <<52, 51, 51>> -> 2 [] s = <<56, 54, 56>> -> 3 [] s = <<57, 49, 53>> -> 4 [] OTHER -> -1
ClassOf(c) == CASE c = 76 -> 0 [] c = 82 -> 1 [] c = 78 -> 2 [] c = 72 -> 3 [] OTHER -> -1      \* L R N H
CodingOf(c) == CASE c = 80 -> 0 [] c = 70 -> 2 [] c = 67 -> 3 [] OTHER -> -1                     \* P F C
Bands == {2, 3, 4}  Classes == 0..3  Codings == {0, 2, 3}      \* those with a text form

RECURSIVE Num(_, _, _)
Num(s, i, acc) == IF i > Len(s) THEN acc ELSE IF acc > 70000 THEN acc ELSE Num(s, i + 1, acc * 10 + s[i] - 48)

Bad == [why |-> "bad", ch |-> <<>>]
Unspecified == [why |-> "unspec", ch |-> <<>>]
(* reading: a header needs its five characters; what follows them is not    *)
(* looked at by everyone, so it is not specified                            *)
ReadHeader(s) ==
  IF Len(s) < 5 THEN Bad
  ELSE LET b == BandOf(SubSeq(s, 1, 3)) c == ClassOf(s[4]) k == CodingOf(s[5]) IN
       IF b = -1 \/ c = -1 \/ k = -1 THEN Bad
       ELSE IF Len(s) > 5 THEN Unspecified
       ELSE [why |-> "", ch |-> <<b, c, k>>]
\* blanks and signs around a number are not specified
Lenient == {9, 10, 11, 12, 13, 32, 43, 45}
ReadId(s) ==
  LET h == ReadHeader(SubSeq(s, 1, 5))  r == SubSeq(s, 6, Len(s)) IN
  IF Len(s) < 6 \/ h.why # "" THEN Bad
  ELSE IF \E i \in 1..Len(r) : r[i] \in Lenient THEN Unspecified
  ELSE IF \E i \in 1..Len(r) : ~Digit(r[i]) THEN Bad
  ELSE LET n == Num(r, 1, 0) IN IF n > 65535 THEN Bad ELSE [why |-> "", ch |-> Append(h.ch, n)]

Read(s, withIndex) == IF withIndex THEN ReadId(s) ELSE ReadHeader(s)

(* the text written for a channel *)
BandText(b) == CASE b = 2 -> <<52, 51, 51>> [] b = 3 -> <<56, 54, 56>> [] b = 4 -> <<57, 49, 53>>
ClassText(c) == <<76, 82, 78, 72>>[c + 1]
CodingText(k) == CASE k = 0 -> 80 [] k = 2 -> 70 [] k = 3 -> 67
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))
Pad3(s) == IF Len(s) >= 3 THEN s ELSE [i \in 1..(3 - Len(s)) |-> 48] \o s
Write(ch) == BandText(ch[1]) \o <<ClassText(ch[2]), CodingText(ch[3])>> \o (IF Len(ch) = 4 THEN Pad3(Decimal(ch[4])) ELSE <<>>)

(* names of engineering modes *)
ModeNames == <<"OFF", "CONT_TX", "TRANSIENT_TX", "PER_RX", "PER_TX">>
ReadMode(n) == IF \E m \in 0..4 : ModeNames[m + 1] = n THEN CHOOSE m \in 0..4 : ModeNames[m + 1] = n ELSE -1
(* parts of a channel's text *)
ReadPart(p, s) == CASE p = "band"   -> BandOf(s)
                    [] p = "class"  -> IF Len(s) = 1 THEN ClassOf(s[1]) ELSE -1
                    [] p = "coding" -> IF Len(s) = 1 THEN CodingOf(s[1]) ELSE -1
=============================================================================
