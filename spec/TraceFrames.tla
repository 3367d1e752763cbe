---------------------------- MODULE TraceFrames -----------------------------
(* Recorded histories of the real frame parser are behaviours of            *)
(* FrameStream: one line is one parser object and the calls made on it.     *)
EXTENDS FrameStream, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES t, c, over
vars == <<fsvars, t, c, over>>
Ops == Trace[t].ops

Init == t \in 1..N /\ c = 0 /\ over = FALSE /\ FsInit(Trace[t].fg = 1)

Seen(r) == [head |-> r.head, np |-> r.np, tp |-> r.tp, cmd |-> r.cmd, crc |-> r.crc]
Differs(f, r) == IF fg THEN FrameDiffers(f, Seen(r)) ELSE IF r.head # f THEN "background frame" ELSE ""
Verdict(r) ==   \* on the new values
  IF lost' THEN ""
  ELSE IF r.exc # "" THEN "parsing intact frames fails"
  ELSE IF Len(r.frames) # Len(got') THEN (IF got' = <<>> THEN "a frame is delivered that is not complete" ELSE "a complete frame is not delivered")
  ELSE IF got' # <<>> /\ r.frames[1].odd # "" THEN "frame has unexpected shape"
  ELSE IF got' # <<>> /\ Differs(got'[1], r.frames[1]) # "" THEN "frame differs: " \o Differs(got'[1], r.frames[1])
  ELSE IF r.parsed # 8 * used' THEN "the number of parsed bits differs"
  ELSE IF r.left # 8 * Len(buf') THEN "the number of buffered bits differs"
  ELSE IF r.nerr # 0 THEN "an error is reported for intact frames"
  ELSE ""
Next ==
  /\ ~over
  /\ IF lost \/ c = Len(Ops)
     THEN /\ over' = TRUE /\ UNCHANGED <<fsvars, t, c>> /\ PrintT(<<"OK", t>>)
     ELSE /\ Call(Ops[c + 1].b)
          /\ c' = c + 1 /\ UNCHANGED t
          /\ LET v == IF "r" \in DOMAIN Ops[c + 1] THEN Verdict(Ops[c + 1].r) ELSE "the code does not return" IN
             IF v = "" THEN over' = FALSE ELSE over' = TRUE /\ PrintT(<<"FAIL", t, "call " \o ToString(c + 1) \o ": " \o v>>)
=============================================================================
