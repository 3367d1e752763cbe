------------------------------- MODULE Serial -------------------------------
(* The serial modem interface: frames, the scanner of a receiver and the    *)
(* frame counters of sender and receiver.                                   *)
(*                                                                          *)
(*   0xC0 | version 0 | counter | type | length | CRC hi | CRC lo | payload *)
EXTENDS Alp

Sync == 192  Version == 0  HeaderLen == 7
ALP_DATA == 1  PING_REQ == 2  PING_RESP == 3  LOGGING == 4  REBOOTED == 5
MaxFrame == HeaderLen + 255

Frame(counter, type, payload) ==
  <<Sync, Version, counter, type, Len(payload)>> \o U16(Crc16(payload)) \o payload

(* what a payload means: [why, msg]; why as in Wire                         *)
Message(type, payload, raw) ==
  CASE type = REBOOTED -> IF payload = <<>> THEN [why |-> "short", msg |-> <<>>]
                          ELSE [why |-> "", msg |-> [t |-> "reboot", v |-> payload[1]]]
    [] type = LOGGING \/ raw -> [why |-> "", msg |-> [t |-> "octets", v |-> payload]]
    [] OTHER -> LET d == DecCmd(payload) IN [why |-> d.why, msg |-> [t |-> "cmd", v |-> d.cmd]]

(* what differs between a message of the specification and one seen        *)
MsgDiffers(spec, seen) ==
  IF seen.odd # "" THEN "the delivered object has an unexpected shape"
  ELSE IF spec.t # seen.t THEN "the delivered object is of another kind"
  ELSE CASE spec.t = "cmd" -> LET d == WhatDiffers(spec.v, seen.v) IN IF d = "" THEN "" ELSE "decoded value differs: " \o d
         [] OTHER -> IF spec.v = seen.v THEN "" ELSE "delivered octets differ"
RECURSIVE MsgsDiffer(_, _, _)
MsgsDiffer(spec, seen, i) ==
  IF i > Len(spec) THEN ""
  ELSE LET d == MsgDiffers(spec[i].msg, seen[i]) IN IF d # "" THEN d ELSE MsgsDiffer(spec, seen, i + 1)

(* One step of the scanner on the octets received and not yet consumed.     *)
(*   wait           more octets are needed                                  *)
(*   skip n         the first n octets cannot be (part of) a frame start    *)
(*   frame n type m the first n octets are an intact frame                  *)
(*   unspec         an intact frame whose payload has no specified meaning  *)
Resume(b) == LET p == NextIndex(b, Sync, 2) IN IF p = 0 THEN Len(b) ELSE p - 1
Wait    == [k |-> "wait", n |-> 0]
Skip(b) == [k |-> "skip", n |-> Resume(b)]
Scan(b, raw) ==
  IF b = <<>> THEN Wait
  ELSE IF b[1] # Sync THEN Skip(b)
  ELSE IF Len(b) < 2 THEN Wait
  ELSE IF b[2] # Version THEN Skip(b)
  ELSE IF Len(b) < HeaderLen THEN Wait
  ELSE IF Len(b) < HeaderLen + b[5] THEN Wait
  ELSE LET payload == Slice(b, HeaderLen + 1, b[5]) IN
       IF U16(Crc16(payload)) # <<b[6], b[7]>> THEN Skip(b)
       ELSE LET m == Message(b[4], payload, raw) IN
            CASE m.why = ""       -> [k |-> "frame", n |-> HeaderLen + b[5], type |-> b[4], counter |-> b[3], msg |-> m.msg]
              [] m.why = "unspec" -> [k |-> "unspec", n |-> 0]
              [] OTHER            -> Skip(b)

(* ------------------------------ the receiver ---------------------------- *)
(* rest: octets still on the line, buf: received and not consumed, out: the *)
(* messages delivered so far, parsed/skipped: octets accounted for, down:   *)
(* the last counter seen, errs: counter discontinuities                     *)
VARIABLES raw, rest, buf, out, parsed, skipped, down, errs
rxvars == <<raw, rest, buf, out, parsed, skipped, down, errs>>

RxInit(stream, r) ==
  /\ raw = r /\ rest = stream /\ buf = <<>> /\ out = <<>> /\ parsed = 0 /\ skipped = 0 /\ down = 0 /\ errs = 0

Idle == Scan(buf, raw).k = "wait"

Feed(n) ==        \* the next n octets arrive; only once the scanner is done with the previous ones
  /\ Idle /\ n \in 1..Len(rest)
  /\ buf' = buf \o SubSeq(rest, 1, n)
  /\ rest' = SubSeq(rest, n + 1, Len(rest))
  /\ UNCHANGED <<raw, out, parsed, skipped, down, errs>>

Deliver ==
  LET s == Scan(buf, raw) IN
  /\ s.k = "frame"
  /\ out' = Append(out, [type |-> s.type, msg |-> s.msg])
  /\ buf' = SubSeq(buf, s.n + 1, Len(buf))
  /\ parsed' = parsed + s.n
  /\ down' = s.counter
  /\ errs' = IF s.counter = (down + 1) % 256 THEN errs ELSE errs + 1
  /\ UNCHANGED <<raw, rest, skipped>>

Discard ==
  LET s == Scan(buf, raw) IN
  /\ s.k = "skip"
  /\ buf' = SubSeq(buf, s.n + 1, Len(buf))
  /\ skipped' = skipped + s.n
  /\ UNCHANGED <<raw, rest, out, parsed, down, errs>>

(* ------------------- reference: the whole stream at once ---------------- *)
RECURSIVE RefFrom(_, _, _)
RefFrom(b, r, acc) ==
  LET s == Scan(b, r) IN
  CASE s.k = "frame" -> RefFrom(SubSeq(b, s.n + 1, Len(b)), r,
                           [acc EXCEPT !.out = Append(@, [type |-> s.type, msg |-> s.msg]), !.parsed = @ + s.n])
    [] s.k = "skip"  -> RefFrom(SubSeq(b, s.n + 1, Len(b)), r, [acc EXCEPT !.skipped = @ + s.n])
    [] OTHER         -> [acc EXCEPT !.buf = b]
Reference(stream, r) == RefFrom(stream, r, [out |-> <<>>, parsed |-> 0, skipped |-> 0, buf |-> <<>>])

(* ------------------------------ invariants ------------------------------ *)
Conservation(len) == parsed + skipped + Len(buf) + Len(rest) = len
Bounded == Idle => Len(buf) < MaxFrame
PrefixBuffered == Idle => (buf = <<>> \/ (buf[1] = Sync /\ (Len(buf) < 2 \/ buf[2] = Version)))
Independent(stream) ==
  (rest = <<>> /\ Idle) =>
     LET ref == Reference(stream, raw) IN
     out = ref.out /\ parsed = ref.parsed /\ skipped = ref.skipped /\ buf = ref.buf
=============================================================================
