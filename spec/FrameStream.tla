---------------------------- MODULE FrameStream ----------------------------
(* A data link frame parser that is fed a stream of frames in pieces.  Each *)
(* call appends its octets to the buffer and takes the first frame out of   *)
(* it if that is complete: at most one frame per call, the rest is kept for *)
(* the next calls, and an incomplete frame is waited for.  What follows a   *)
(* frame that is not well-formed is unspecified (lost).                     *)
EXTENDS Dll

VARIABLES fg,     \* foreground frames (or background frames)
          buf,    \* received, not consumed
          got,    \* what the last call delivered: a sequence of at most one frame
          used,   \* octets the last call consumed
          lost    \* a malformed frame is at the head of the buffer
fsvars == <<fg, buf, got, used, lost>>

DecBg(b) == LET d == Dec(BgLayout, b, 0) IN F(d.why, d.pos, d.toks)
DecFrame(isFg, b) == IF isFg THEN DecFg(b) ELSE DecBg(b)

FsInit(isFg) == fg = isFg /\ buf = <<>> /\ got = <<>> /\ used = 0 /\ lost = FALSE

Call(chunk) ==
  LET b == buf \o chunk  d == DecFrame(fg, b) IN
  /\ ~lost
  /\ IF d.why = ""
     THEN /\ got' = <<d.f>> /\ used' = d.pos \div 8
          /\ buf' = SubSeq(b, d.pos \div 8 + 1, Len(b)) /\ lost' = FALSE
     ELSE /\ got' = <<>> /\ used' = 0 /\ buf' = b
          /\ lost' = (b # <<>> /\ d.why # "short")
  /\ UNCHANGED fg

(* the frames of a stream, found at once *)
RECURSIVE AllFrames(_, _, _)
AllFrames(isFg, b, acc) ==
  LET d == DecFrame(isFg, b) IN
  IF d.why = "" THEN AllFrames(isFg, SubSeq(b, d.pos \div 8 + 1, Len(b)), Append(acc, d.f)) ELSE acc
=============================================================================
