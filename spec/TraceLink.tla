----------------------------- MODULE TraceLink ------------------------------
(* Two real parsers joined by a lossy line, one in each direction: recorded *)
(* histories of sending (k = s) and receiving (k = d) are as Link says.     *)
EXTENDS Link, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES t, c, over,
          sent,      \* per side: what it has sent, as Link has it
          seen       \* per side: number of octets it has received
vars == <<rxvars, t, c, over, sent, seen>>
Ops == Trace[t].ops
Raw(side) == Trace[t].raw[side] = 1

Init == t \in 1..N /\ c = 0 /\ over = FALSE /\ sent = <<<<>>, <<>>>> /\ seen = <<0, 0>> /\ RxInit(<<>>, FALSE)

Rec(o) == LET e == EncCmd(o.cmd, TRUE)
              n == Len(sent[o.side]) % 256
          IN [ok |-> e.ok /\ Len(e.out) <= 255, fate |-> o.fate, counter |-> n, frame |-> Frame(n, ALP_DATA, e.out), flip |-> o.flip]
SendVerdict(o, s) ==
  IF ~s.ok THEN "machinery: not a command that fits"
  ELSE IF o.r.exc # "" THEN "building a frame fails"
  ELSE IF o.r.out # s.frame
       THEN (IF Len(o.r.out) > 2 /\ [o.r.out EXCEPT ![3] = s.counter] = s.frame THEN "frame is not numbered as the next one sent" ELSE "built frame differs")
  ELSE IF s.fate = DAMAGED /\ ~Quiet(Flip(s.frame, s.flip)) THEN "machinery: the damage looks like a frame"
  ELSE IF o.wire # OnTheWire(s) THEN "machinery: not what the line does"
  ELSE ""

DeliverVerdict(o) ==
  LET line == sent[3 - o.side]
      now  == Arrived(line, seen[o.side] + o.n)
      new  == SubSeq(now, Len(Arrived(line, seen[o.side])) + 1, Len(now))
      r    == o.r
      spec == [i \in 1..Len(new) |-> [msg |-> Msg(new[i], Raw(o.side))]]
  IN IF r.exc # "" THEN "parsing raises an exception"
     ELSE IF r.shape # "" THEN "the result has an unexpected shape"
     ELSE IF Len(r.msgs) < Len(new) THEN "a command that has arrived is not delivered"
     ELSE IF Len(r.msgs) > Len(new) THEN "more is delivered than has arrived"
     ELSE IF MsgsDiffer(spec, r.msgs, 1) # "" THEN "another command than the one sent: " \o MsgsDiffer(spec, r.msgs, 1)
     ELSE IF NoDamage(line) /\ r.ec # Gaps(now, 1, 0) THEN "losses are not counted as gaps"
     ELSE ""

Next ==
  /\ ~over
  /\ IF c = Len(Ops) THEN over' = TRUE /\ UNCHANGED <<rxvars, t, c, sent, seen>> /\ PrintT(<<"OK", t>>)
     ELSE LET o == Ops[c + 1]
              s == Rec(o)
              v == IF "r" \notin DOMAIN o THEN "the code does not return"
                   ELSE IF o.k = "s" THEN SendVerdict(o, s) ELSE DeliverVerdict(o)
          IN /\ c' = c + 1 /\ UNCHANGED <<rxvars, t>>
             /\ sent' = IF o.k = "s" THEN [sent EXCEPT ![o.side] = Append(@, s)] ELSE sent
             /\ seen' = IF o.k = "s" THEN seen ELSE [seen EXCEPT ![o.side] = @ + o.n]
             /\ IF v = "" THEN over' = FALSE ELSE over' = TRUE /\ PrintT(<<"FAIL", t, "call " \o ToString(c + 1) \o ": " \o v>>)
=============================================================================
