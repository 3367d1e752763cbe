----------------------------- MODULE MC_Serial ------------------------------
(* All segmentations of streams made of a few fragments: intact frames of   *)
(* every kind, damaged frames, truncated frames, garbage with and without   *)
(* sync octets, frames nested in the payload of a damaged frame.            *)
EXTENDS Serial, Json, IOUtils

Short   == <<35, 7>>                       \* tag response 7
F1      == Frame(1, ALP_DATA, Short)
F2      == Frame(9, LOGGING, <<192>>)
F3      == Frame(2, REBOOTED, <<3>>)
F4      == Frame(2, ALP_DATA, <<>>)
Bad     == Frame(1, ALP_DATA, <<1, 192>>)  \* intact, but no ALP command
Broken  == [F1 EXCEPT ![7] = 255 - @]      \* wrong CRC
Nested  == [Frame(3, LOGGING, F4) EXCEPT ![6] = (@ + 1) % 256]  \* damaged, an intact frame inside
Fragments == <<F1, F2, F3, F4, Bad, Broken, Nested,
               <<0>>, <<192>>, <<192, 0>>, <<192, 1>>, <<192, 192>>, <<192, 0, 1, 1, 1>>, SubSeq(F1, 1, 8), <<7, 192, 9>>>>

MaxFrag == atoi(IOEnv.MAXFRAG)
RECURSIVE Cat(_, _)
Cat(is, k) == IF k > Len(is) THEN <<>> ELSE Fragments[is[k]] \o Cat(is, k + 1)
Streams == UNION {{Cat(is, 1) : is \in [1..n -> 1..Len(Fragments)]} : n \in 1..MaxFrag}

VARIABLE stream
vars == <<rxvars, stream>>
Init == \E s \in Streams, r \in BOOLEAN : stream = s /\ RxInit(s, r)
Next == /\ \/ \E n \in 1..Len(rest) : Feed(n)
           \/ Deliver
           \/ Discard
        /\ UNCHANGED stream

InvConservation == Conservation(Len(stream))
InvIndependent  == Independent(stream)
InvUnspec       == Scan(buf, raw).k # "unspec"
(* whatever was received, once the buffer is empty the next intact frame is delivered *)
InvRecovers     == \A f \in {F1, F2, F3, F4} : Reference(f, raw).out # <<>>
(* frames without damage before, between or behind them are all delivered   *)
Progress        == [][Len(buf') < Len(buf) \/ Len(rest') < Len(rest)]_vars

\* the streams, for replay on the implementation
ASSUME IF "OUT" \in DOMAIN IOEnv THEN JsonSerialize(IOEnv.OUT, SetToSeq(Streams)) ELSE TRUE
=============================================================================
