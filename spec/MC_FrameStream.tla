--------------------------- MODULE MC_FrameStream ---------------------------
(* All ways to cut streams of a few frames into calls: every frame comes    *)
(* out exactly once, in order, however the stream is cut.                   *)
EXTENDS FrameStream, Json, IOUtils

\* length, subnet, NOID, network layer without origin, transport layer, command, checksum
Start(ctl) == <<5, ctl>>
Fg(cmd, ctl) == LET r == Start(ctl) \o <<144, 1, 0, 7, 9>> \o cmd \o <<192, 0>> IN <<Len(r)>> \o r
A == Fg(<<>>, 80)
B == Fg(<<1, 0, 0, 8>>, 64)
C == Fg(<<32, 64, 0, 1, 13>>, 80)
P == <<1, 66, 0, 6, 171, 205>>
Q == <<255, 67, 6, 0, 0, 0>>
Streams == {<<TRUE, s>> : s \in {A, A \o B, B \o A, C \o A \o B, A \o A \o A, SubSeq(C, 1, 9), A \o SubSeq(B, 1, Len(B) - 1)}}
           \union {<<FALSE, s>> : s \in {P, P \o Q, Q \o P \o P, P \o SubSeq(Q, 1, 5)}}

VARIABLES stream, seen, frames
vars == <<fsvars, stream, seen, frames>>
Init == \E s \in Streams : stream = s[2] /\ FsInit(s[1]) /\ seen = 0 /\ frames = <<>>
Next == /\ \E n \in 0..(Len(stream) - seen) : Call(SubSeq(stream, seen + 1, seen + n)) /\ seen' = seen + n
        /\ frames' = frames \o got'
        /\ UNCHANGED stream

InvNotLost     == ~lost
\* what came out and what is still to come are the frames of what arrived
InvOnceInOrder == frames \o AllFrames(fg, buf, <<>>) = AllFrames(fg, SubSeq(stream, 1, seen), <<>>)
InvKept        == used + Len(buf) <= seen /\ (buf = <<>> \/ buf = SubSeq(stream, seen - Len(buf) + 1, seen))
\* a call that delivers nothing leaves only an incomplete frame
InvWaits       == got = <<>> => AllFrames(fg, buf, <<>>) = <<>>
ASSUME AllFrames(TRUE, A \o B \o C, <<>>) # <<>> /\ Len(AllFrames(TRUE, A \o B \o C, <<>>)) = 3
ASSUME Len(AllFrames(FALSE, P \o Q \o P, <<>>)) = 3
=============================================================================
