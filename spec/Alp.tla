-------------------------------- MODULE Alp --------------------------------
(* ALP actions and commands.                                                *)
EXTENDS Layouts

NOP == 0  READ == 1  READHDR == 2  WRITE == 4  WRITEHDR == 6  BREAKQ == 9  CREATE == 17
RETDATA == 32  RETHDR == 33  STATUS == 34  TAGRESP == 35
FORWARD == 50  INDIRECT == 51  TAGREQ == 52

Query(p) == <<Fld(p \o ".type", 3, {2}), Fld(p \o ".mask", 1, {0}), Bit(p \o ".signed"), Fld(p \o ".comp", 3, 0..5),
              AlpLen(p \o ".clen"), Data(p \o ".cval", p \o ".clen")>> \o Offset(p)

(* what follows the 6-bit opcode, per opcode; the two leading bits have an  *)
(* opcode specific meaning and are laid out by Lead                         *)
Body(op) ==
  CASE op = READ                -> Offset("o") \o <<AlpLen("len")>>
    [] op \in {WRITE, RETDATA}  -> Offset("o") \o <<AlpLen("len"), Data("data", "len")>>
    [] op = BREAKQ              -> Query("q")
    [] op \in {CREATE, RETHDR, WRITEHDR} -> <<U8("fid")>> \o FileHeader("h")
    [] op = READHDR             -> <<U8("fid")>>
    [] op = TAGRESP             -> <<U8("tag")>>
    [] op = TAGREQ              -> <<U8("tag")>>
    [] op = FORWARD             -> InterfaceConfig("f", {IfSerial, IfAbp, IfOtaa, IfD7})
    [] op = INDIRECT            -> <<U8("ifile"), When("overload", {1}, Addressee("a"))>>
    [] op = NOP                 -> <<>>
    [] OTHER                    -> <<Forbid>>

Lead(op) ==
  CASE op \in {READ, READHDR, WRITE, WRITEHDR, BREAKQ, CREATE, RETDATA, RETHDR, NOP} -> <<Bit("group"), Bit("resp")>>
    [] op = TAGRESP  -> <<Bit("eop"), Bit("error")>>
    [] op = TAGREQ   -> <<Bit("respond"), Fld("rfu6", 1, {0})>>
    [] op = FORWARD  -> <<Fld("rfu7", 1, {0}), Bit("resp")>>
    [] op = INDIRECT -> <<Bit("overload"), Bit("resp")>>
    [] OTHER         -> <<Forbid>>

ActionLayout(op) == <<Lead(op)[1], Lead(op)[2], Fld("op", 6, {op})>> \o Body(op)

\* evaluated once by TLC
LayoutOf == [op \in {NOP, READ, READHDR, WRITE, WRITEHDR, BREAKQ, CREATE, RETDATA, RETHDR, TAGRESP, FORWARD, INDIRECT, TAGREQ}
              |-> ActionLayout(op)]
EncodableOps == DOMAIN LayoutOf
(* the opcodes the decoder knows; anything else is rejected *)
DecodableOps == {READ, WRITE, BREAKQ, CREATE, RETDATA, RETHDR, STATUS, TAGRESP, FORWARD, INDIRECT, TAGREQ}

(* Interface status.  On the wire: opcode, interface id, status length,     *)
(* status.  A length of zero announces no status.  Only the D7ASP status    *)
(* has a defined structure; a length that contradicts that structure is     *)
(* left unspecified.                                                        *)
StatusHead == <<Fld("ext", 2, {1}), Fld("op", 6, {STATUS}), Fld("iface", 8, {IfSerial, IfD7}), U8("slen")>>
StatusBody == SpStatus("st")
DecStatus(b, pos) ==
  LET h == Dec(StatusHead, b, pos) IN
  IF h.why # "" THEN h
  ELSE IF Val(h.toks, "slen") = 0 THEN R("", h.pos, <<<<"iface", <<Val(h.toks, "iface")>> >> >>)
  ELSE IF Val(h.toks, "iface") = IfSerial THEN R("unspec", h.pos, <<>>)
  ELSE LET r == Dec(StatusBody, b, h.pos) IN
       IF r.pos - h.pos > 8 * Val(h.toks, "slen") \/ (r.why = "" /\ r.pos - h.pos # 8 * Val(h.toks, "slen"))
       THEN R("unspec", r.pos, <<>>)
       ELSE IF r.why # "" THEN r
       ELSE R("", r.pos, <<<<"iface", <<IfD7>> >> >> \o r.toks)

DecAction(b, pos) ==
  IF 8 * Len(b) - pos < 8 THEN R("short", pos, <<>>)
  ELSE LET op == BitsAt(b, pos + 2, 6) IN
       IF op \notin DecodableOps THEN R("bad", pos, <<>>)
       ELSE IF op = STATUS THEN DecStatus(b, pos)
       ELSE Dec(LayoutOf[op], b, pos)

EncStatus(toks) ==   \* canonical encoding, including the length octet the decoder expects
  IF Val(toks, "iface") \notin {IfSerial, IfD7} THEN E(FALSE, <<>>)
  ELSE IF Len(toks) = 1 THEN E(TRUE, <<64 + STATUS, Val(toks, "iface"), 0>>)
  ELSE LET r == Enc(StatusBody, Tail(toks)) IN
       E(r.ok, <<64 + STATUS, Val(toks, "iface"), Len(r.out)>> \o r.out)

OpOf(toks) == Val(toks, "op")
EncAction(toks) ==
  IF OpOf(toks) \notin EncodableOps THEN E(FALSE, <<>>) ELSE Enc(LayoutOf[OpOf(toks)], toks)

(* ------------------------------- commands ------------------------------- *)
(* A command: optional tag, the flags that came with it, at most one        *)
(* interface status and the remaining actions in order.                     *)
EmptyCmd == [tag |-> <<>>, kind |-> "none", send |-> 1, done |-> 0, err |-> 0, status |-> <<>>, actions |-> <<>>]

\* one decoded action added to a command; the result is [why, cmd]
AddAction(cmd, op, toks) ==
  CASE op = STATUS ->
        IF cmd.status # <<>> THEN [why |-> "bad", cmd |-> cmd]
        ELSE [why |-> "", cmd |-> [cmd EXCEPT !.status = toks]]
    [] op = TAGREQ ->
        IF cmd.tag # <<>> THEN [why |-> "bad", cmd |-> cmd]
        ELSE [why |-> "", cmd |-> [cmd EXCEPT !.tag = <<Val(toks, "tag")>>, !.kind = "req", !.send = Val(toks, "respond")]]
    [] op = TAGRESP ->
        IF cmd.tag # <<>> THEN [why |-> "bad", cmd |-> cmd]
        ELSE [why |-> "", cmd |-> [cmd EXCEPT !.tag = <<Val(toks, "tag")>>, !.kind = "resp",
                                              !.done = Val(toks, "eop"), !.err = Val(toks, "error")]]
    [] OTHER -> [why |-> "", cmd |-> [cmd EXCEPT !.actions = Append(@, toks)]]

(* Decode the command that occupies exactly b (a declared length is         *)
(* imposed by the caller passing the sub-string).                           *)
RECURSIVE DecCmdFrom(_, _, _, _)
DecCmdFrom(b, pos, cmd, dup) ==
  IF pos = 8 * Len(b) THEN [why |-> IF dup THEN "bad" ELSE "", cmd |-> cmd]
  ELSE LET r == DecAction(b, pos) IN
       IF r.why # "" THEN [why |-> r.why, cmd |-> cmd]
       ELSE LET a == AddAction(cmd, BitsAt(b, pos + 2, 6), r.toks) IN
            DecCmdFrom(b, r.pos, a.cmd, dup \/ a.why # "")
DecCmd(b) == DecCmdFrom(b, 0, EmptyCmd, FALSE)

(* Canonical encoding of a command.  The tag request goes first, then the   *)
(* interface status, then the actions.                                      *)
RECURSIVE EncActions(_, _)
EncActions(as, i) ==
  IF i > Len(as) THEN E(TRUE, <<>>)
  ELSE LET a == EncAction(as[i]) IN
       IF ~a.ok THEN E(FALSE, <<>>)
       ELSE LET rest == EncActions(as, i + 1) IN E(rest.ok, a.out \o rest.out)
EncCmd(cmd, withTag) ==
  LET st  == IF cmd.status = <<>> THEN E(TRUE, <<>>) ELSE EncStatus(cmd.status)
      as  == EncActions(cmd.actions, 1)
      tag == IF withTag THEN <<cmd.send * 128 + TAGREQ, cmd.tag[1]>> ELSE <<>>
  IN E(st.ok /\ as.ok /\ (withTag => (Len(cmd.tag) = 1 /\ cmd.tag[1] \in Octet)), tag \o st.out \o as.out)

(* --------------------------------- comparing --------------------------- *)
WhatDiffers(spec, seen) ==
  CASE seen.tag # spec.tag -> "tag"
    [] seen.send # spec.send -> "respond flag"
    [] seen.done # spec.done -> "completion"
    [] spec.kind = "resp" /\ seen.err # <<spec.err>> -> "error flag"
    [] seen.status # spec.status -> "interface status"
    [] Len(seen.actions) # Len(spec.actions) -> "number of actions"
    [] seen.actions # spec.actions -> "action fields"
    [] OTHER -> ""
=============================================================================
