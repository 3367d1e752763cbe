-------------------------------- MODULE Link --------------------------------
(* One direction of a serial link, as its users see it: commands are framed *)
(* and numbered by one parser, whole frames may be lost or arrive damaged   *)
(* in payload or checksum, and another parser receives what is left, cut at *)
(* arbitrary places.  No scanner here: MC_Link shows that the receiver of   *)
(* Serial behaves like this, TraceLink judges the code against it.          *)
EXTENDS Serial

LOST == 0  INTACT == 1  DAMAGED == 2

(* a sent frame: [cmd, fate, counter, frame, flip].  Damage keeps length    *)
(* and header and leaves no other octet that looks like a frame start.      *)
Flip(f, bit) == LET o == HeaderLen + bit \div 8 + 1
                    k == IF o > Len(f) THEN HeaderLen - 1 + (o - Len(f) - 1) ELSE o   \* payload first, then checksum
                IN [f EXCEPT ![k] = IF (@ \div 2^(7 - (bit % 8))) % 2 = 1 THEN @ - 2^(7 - (bit % 8)) ELSE @ + 2^(7 - (bit % 8))]
Quiet(f) == \A i \in 2..Len(f) : f[i] # Sync
OnTheWire(s) == CASE s.fate = LOST -> <<>> [] s.fate = INTACT -> s.frame [] OTHER -> Flip(s.frame, s.flip)

RECURSIVE Arrivals(_, _, _, _)
(* the intact frames whose last octet is among the first n on the line      *)
Arrivals(sent, i, at, n) ==
  IF i > Len(sent) THEN <<>>
  ELSE LET end == at + Len(OnTheWire(sent[i])) IN
       (IF sent[i].fate = INTACT /\ end <= n THEN <<sent[i]>> ELSE <<>>) \o Arrivals(sent, i + 1, end, n)
Arrived(sent, n) == Arrivals(sent, 1, 0, n)

RECURSIVE Gaps(_, _, _)
Gaps(got, i, last) == IF i > Len(got) THEN 0
                      ELSE (IF got[i].counter = (last + 1) % 256 THEN 0 ELSE 1) + Gaps(got, i + 1, got[i].counter)
Msg(s, r) == Message(ALP_DATA, SubSeq(s.frame, HeaderLen + 1, Len(s.frame)), r).msg
NoDamage(sent) == \A i \in 1..Len(sent) : sent[i].fate # DAMAGED
=============================================================================
