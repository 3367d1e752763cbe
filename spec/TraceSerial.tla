---------------------------- MODULE TraceSerial -----------------------------
(* Recorded histories of the real serial parser are behaviours of Serial.   *)
(* One line of the trace file is one parser object: a sequence of calls,    *)
(* each either f (parse a chunk) or b (build a frame for a command).        *)
EXTENDS Serial, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES t,       \* the history
          c,       \* calls started
          open,    \* the call has started and its result is not judged yet
          clean,   \* only intact frames so far
          up,      \* number of the next frame to send
          over     \* judged
vars == <<rxvars, t, c, open, clean, up, over>>

Ops == Trace[t].ops
Op  == Ops[c]
Fail(why) == PrintT(<<"FAIL", t, "call " \o ToString(c) \o ": " \o why>>)

Init ==
  /\ t \in 1..N
  /\ raw = (Trace[t].raw = 1) /\ rest = <<>> /\ buf = <<>> /\ out = <<>> /\ parsed = 0 /\ skipped = 0 /\ down = 0 /\ errs = 0
  /\ c = 0 /\ open = FALSE /\ clean = TRUE /\ up = 0 /\ over = FALSE

Begin ==
  /\ ~open /\ c < Len(Ops)
  /\ c' = c + 1
  /\ open' = TRUE
  /\ rest' = IF Ops[c + 1].k = "f" THEN Ops[c + 1].b ELSE <<>>
  /\ UNCHANGED <<raw, buf, out, parsed, skipped, down, errs, t, clean, up, over>>

Arrive == open /\ rest # <<>> /\ Feed(Len(rest)) /\ UNCHANGED <<t, c, open, clean, up, over>>
Work   == open /\ rest = <<>> /\ (Deliver \/ Discard) /\ UNCHANGED <<t, c, open, clean, up, over>>

(* ------------------------------ judging a call -------------------------- *)
FeedVerdict(r) ==
  IF r.exc # "" THEN "parsing raises an exception"
  ELSE IF r.shape # "" THEN "the result has an unexpected shape"
  ELSE IF Len(r.msgs) < Len(out) THEN "an intact frame is not delivered"
  ELSE IF Len(r.msgs) > Len(out) THEN "something else than an intact frame is delivered"
  ELSE IF r.types # [i \in 1..Len(out) |-> out[i].type] THEN "message types differ"
  ELSE IF MsgsDiffer(out, r.msgs, 1) # "" THEN MsgsDiffer(out, r.msgs, 1)
  ELSE IF r.parsed # 8 * parsed THEN "parsed bits are not the bits of the delivered frames"
  ELSE IF r.skipped # skipped THEN "skipped octets are not accounted for"
  ELSE IF r.left # 8 * Len(buf) THEN "buffered bits are not the bits received and not consumed"
  ELSE IF (skipped > 0) # (r.nerr > 0) THEN "skipped octets without an error or an error without skipped octets"
  ELSE IF clean /\ skipped = 0 /\ r.ec # errs THEN "counter discontinuities are not counted exactly"
  ELSE ""

BuildVerdict(o) ==
  LET e == EncCmd(o.cmd, TRUE) IN
  IF ~e.ok THEN "machinery: not a value of the specification"
  ELSE IF Len(e.out) > 255 THEN (IF o.r.exc = "" THEN "a frame is built for a command that does not fit" ELSE "")
  ELSE IF o.r.exc # "" THEN "building a frame fails"
  ELSE IF o.r.out # Frame(up, ALP_DATA, e.out)
       THEN (IF Len(o.r.out) > 2 /\ [o.r.out EXCEPT ![3] = up] = Frame(up, ALP_DATA, e.out) THEN "frame counter is not the next number" ELSE "built frame differs")
  ELSE ""
Fits(o) == Len(EncCmd(o.cmd, TRUE).out) <= 255

Verdict == IF Op.k = "f" THEN FeedVerdict(Op.r) ELSE BuildVerdict(Op)
Unspecified == Op.k = "f" /\ Scan(buf, raw).k = "unspec"

Judge ==
  /\ open /\ rest = <<>>
  /\ Idle \/ Unspecified
  /\ LET v == IF "dead" \in DOMAIN Trace[t] THEN "the code does not return" ELSE IF Unspecified THEN "" ELSE Verdict
         last == c = Len(Ops) \/ v # "" \/ Unspecified
     IN /\ IF v # "" THEN Fail(v) ELSE IF last THEN PrintT(<<"OK", t>>) ELSE TRUE
        /\ open' = last        \* nothing follows a judged history
        /\ over' = last
  /\ clean' = (clean /\ skipped = 0)
  /\ up' = IF Op.k = "b" /\ Fits(Op) THEN (up + 1) % 256 ELSE up
  /\ out' = <<>> /\ parsed' = 0 /\ skipped' = 0
  /\ UNCHANGED <<raw, rest, buf, down, errs, t, c>>

Next == ~over /\ (Begin \/ Arrive \/ Work \/ Judge)

(* the invariants of the receiver hold along recorded histories as well     *)
InvBounded == Bounded
InvPrefix  == PrefixBuffered
=============================================================================
