----------------------------- MODULE TraceCodec -----------------------------
(* Judges recorded uses of the real ALP encoder and decoder.  Each line of  *)
(* the trace is one use: the request (what was asked) and r (what the code  *)
(* did).  Verdict is "" when the specification allows it, otherwise the     *)
(* name of the violated clause.                                             *)
EXTENDS Factories, Json, IOUtils

Trace  == ndJsonDeserialize(IOEnv.TRACE)
N      == Len(Trace)
Stride == LET s == atoi(IOEnv.STRIDE) IN IF s < N THEN s ELSE N

EncVerdict(e, want) ==
  IF ~want.ok THEN "machinery: request is not a value of the specification"
  ELSE IF e.r.exc # "" THEN "encoding a valid command fails"
  ELSE IF e.r.ints # 1 THEN "iteration yields something else than octets"
  ELSE IF e.r.out # want.out THEN "encoded octets differ from the specification"
  ELSE IF e.r.again # want.out THEN "encoding again gives other octets"
  ELSE IF e.r.packed # want.out THEN "conversion to a byte array gives other octets"
  ELSE ""

TagOf(e) == IF e.r.tag = <<>> THEN <<0>> ELSE e.r.tag   \* a generated tag is random

WithTag(cmd, e) == IF e.fix = 1 THEN cmd ELSE [cmd EXCEPT !.tag = TagOf(e)]

(* clauses of decoding *)
DecVerdict(d, e, r) ==
  CASE d.why = "unspec" -> ""
    [] d.why \in {"short", "bad"} ->
         IF r.ok = 1 THEN "malformed octets are accepted (" \o d.why \o ")" ELSE ""
    [] OTHER ->
         IF r.ok = 0 THEN "well-formed octets are rejected"
         ELSE IF r.odd # "" THEN "decoded object has unexpected shape"
         ELSE IF r.pos # 8 * Len(e.b) THEN "decoding does not consume exactly the command"
         ELSE IF WhatDiffers(d.cmd, r.cmd) # "" THEN "decoded value differs: " \o WhatDiffers(d.cmd, r.cmd)
         ELSE IF r.str # 1 THEN "decoded command cannot be printed"
         ELSE IF r.d7st # d.cmd.status /\ d.cmd.status # <<>> /\ Val(d.cmd.status, "iface") = IfD7 /\ Len(d.cmd.status) > 1
              THEN "D7ASP interface status accessor differs"
         ELSE ""

Canon(cmd) == [cmd EXCEPT !.tag = <<>>, !.kind = "none", !.send = 1, !.done = 0, !.err = 0]

(* through JSON and back: cmd and out before, cmd2 and packed after *)
StoredVerdict(e) ==
  LET want == IF e.k = "jsonb" THEN DecCmd(e.b) ELSE [why |-> "", cmd |-> [WithTag(e.cmd, [e EXCEPT !.r.tag = e.r.cmd.tag]) EXCEPT !.kind = "req"]] IN
  IF want.why # "" THEN ""
  ELSE IF e.r.exc # "" THEN "storing a command fails"
  ELSE IF WhatDiffers(want.cmd, e.r.cmd) # "" THEN "the command itself differs: " \o WhatDiffers(want.cmd, e.r.cmd)
  ELSE IF e.r.again # e.r.out \/ e.r.ints # 1 THEN "storing changes the command"
  ELSE IF WhatDiffers(want.cmd, e.r.cmd2) # "" THEN "storing loses the " \o WhatDiffers(want.cmd, e.r.cmd2)
  ELSE IF e.r.packed # e.r.out THEN "the restored command has other octets"
  ELSE IF e.r.ok # 1 THEN "enumeration values come back as something else"
  ELSE IF want.cmd.status # <<>> /\ Val(want.cmd.status, "iface") = IfD7 /\ Len(want.cmd.status) > 1 /\ e.r.d7st # want.cmd.status THEN "the restored interface status differs"
  ELSE IF e.r.str # 1 THEN "the restored command cannot be printed"
  ELSE ""

Verdict(e) ==
  IF "dead" \in DOMAIN e.r THEN "the code does not return"
  ELSE
  CASE e.k = "enc"  -> EncVerdict(e, EncCmd(WithTag(e.cmd, e), e.gen = 1))
    [] e.k = "fact" -> EncVerdict(e, EncCmd([EmptyCmd EXCEPT !.tag = IF e.fix = 1 THEN e.cmd.tag ELSE TagOf(e), !.actions = FactoryActions(e.a)], TRUE))
    [] e.k = "dec"  -> DecVerdict(DecCmd(e.b), e, e.r)
    [] e.k = "rt"   -> \* command -> octets -> command
         LET cmd == WithTag(e.cmd, e) IN
         IF e.r.exc # "" THEN "encoding a valid command fails"
         ELSE IF cmd.status # <<>> /\ e.r.out = EncNoLen(cmd, TRUE) THEN "KNOWN status length"
         ELSE IF e.r.ok # 1 THEN "encoded command cannot be decoded"
         ELSE IF e.r.odd # "" THEN "decoded object has unexpected shape"
         ELSE IF WhatDiffers([cmd EXCEPT !.kind = "req"], e.r.cmd) # "" THEN "round trip changes the " \o WhatDiffers([cmd EXCEPT !.kind = "req"], e.r.cmd)
         ELSE ""
    [] e.k = "rtb"  -> \* octets -> command -> octets -> command
         LET d == DecCmd(e.b) IN
         IF d.why # "" THEN (IF d.why \in {"short", "bad"} /\ e.r.ok = 1 THEN "malformed octets are accepted (" \o d.why \o ")" ELSE "")
         ELSE IF e.r.ok # 1 THEN "well-formed octets are rejected"
         ELSE IF e.r.exc # "" THEN "decoded command cannot be encoded"
         ELSE IF d.cmd.status # <<>> /\ e.r.out = EncNoLen(d.cmd, FALSE) THEN "KNOWN status length"
         ELSE IF e.r.out # EncCmd(Canon(d.cmd), FALSE).out THEN "re-encoding is not the canonical encoding"
         ELSE IF e.r.ok2 # 1 THEN "re-encoded command cannot be decoded"
         ELSE IF e.r.odd # "" THEN "decoded object has unexpected shape"
         ELSE IF WhatDiffers(Canon(d.cmd), e.r.cmd2) # "" THEN "round trip changes the " \o WhatDiffers(Canon(d.cmd), e.r.cmd2)
         ELSE ""

    [] OTHER -> StoredVerdict(e)
VARIABLE i
Init == i \in (1 - Stride)..0
Next == /\ i + Stride <= N
        /\ i' = i + Stride
        /\ LET v == Verdict(Trace[i']) IN IF v = "" THEN TRUE ELSE PrintT(<<"FAIL", i', v>>)
=============================================================================
