-------------------------------- MODULE Dll --------------------------------
(* Data link layer frames: foreground frames with the network (D7ANP) and   *)
(* transport (D7ATP) layers around an ALP command, and background frames.   *)
(* A frame is [head, np, tp, cmd, crc]: one token list per layer, the ALP   *)
(* command and the checksum (carried, not verified by the decoder).         *)
EXTENDS Alp

FgHead == <<U8("length"), U8("subnet"), U("idtype", 2), U("eirp", 6),
            When("idtype", {UID}, <<Wide("target", 8)>>), When("idtype", {VID}, <<Wide("target", 2)>>)>>
\* hopping and network layer security are not supported
NpHead == <<Bit("noorigin"), Fld("hop", 1, {0}), U("oidtype", 2), Fld("nls", 4, {0}), U8("oac"),
            When("noorigin", {0}, <<When("oidtype", {UID}, <<Wide("origin", 8)>>),
                                    When("oidtype", {VID}, <<Wide("origin", 2)>>),
                                    When("oidtype", {NBID, NOID}, <<Forbid>>)>>)>>
\* acknowledgement templates are not supported
TpHead == <<Bit("start"), Rfu(1), Bit("tl?"), Bit("te?"), Bit("ackreq"), Fld("acknv", 1, {0}), Fld("ackrec", 1, {0}), Bit("agc?"),
            U8("dialog"), U8("trans"),
            When("agc?", {1}, <<Fld("agc", 8, 0..31)>>),
            When("tl?", {1}, CT("tl")), When("te?", {1}, CT("te")),
            When("ackreq", {1}, <<When("start", {1}, CT("tc"))>>)>>
BgLayout == <<U8("subnet"), U("idtype", 2), U("tag", 6), U("payload", 16), U("crc", 16)>>

NoFrame == [head |-> <<>>, np |-> <<>>, tp |-> <<>>, cmd |-> EmptyCmd, crc |-> <<>>]
F(why, pos, f) == [why |-> why, pos |-> pos, f |-> f]

(* The length octet counts everything after itself, checksum included.      *)
DecFg(b) ==
  LET h  == Dec(FgHead, b, 0)
      n  == Dec(NpHead, b, h.pos)
      t  == Dec(TpHead, b, n.pos)
      total == 1 + Val(h.toks, "length")          \* octets of the frame
      from  == t.pos \div 8                       \* octets before the command
      plen  == total - from - 2
  IN
  IF h.why # "" THEN F(h.why, h.pos, NoFrame)
  ELSE IF n.why # "" THEN F(n.why, n.pos, NoFrame)
  ELSE IF t.why # "" THEN F(t.why, t.pos, NoFrame)
  ELSE IF plen < 0 THEN F("unspec", t.pos, NoFrame)       \* the length contradicts the headers
  ELSE LET have == IF Len(b) - from < plen THEN Len(b) - from ELSE plen
           c == DecCmd(Slice(b, from + 1, have)) IN
       IF Len(b) < total THEN F(IF c.why \in {"bad", "unspec"} THEN c.why ELSE "short", t.pos, NoFrame)
       ELSE IF c.why = "short" THEN F("unspec", t.pos, NoFrame)   \* the command does not fit the length
       ELSE IF c.why # "" THEN F(c.why, t.pos, NoFrame)
       ELSE F("", 8 * total, [head |-> h.toks, np |-> n.toks, tp |-> t.toks, cmd |-> c.cmd,
                              crc |-> <<b[total - 1] * 256 + b[total]>>])

EncFg(f, withTag) ==
  LET h == Enc(FgHead, f.head)  n == Enc(NpHead, f.np)  t == Enc(TpHead, f.tp)  c == EncCmd(f.cmd, withTag)
  IN E(h.ok /\ n.ok /\ t.ok /\ c.ok /\ Len(f.crc) = 1 /\ f.crc[1] \in 0..65535,
       h.out \o n.out \o t.out \o c.out \o (IF Len(f.crc) = 1 THEN U16(f.crc[1]) ELSE <<>>))

(* what two frames differ in *)
FrameDiffers(spec, seen) ==
  CASE seen.head # spec.head -> "frame header"
    [] seen.np # spec.np -> "network layer"
    [] seen.tp # spec.tp -> "transport layer"
    [] seen.crc # spec.crc -> "checksum"
    [] WhatDiffers(spec.cmd, seen.cmd) # "" -> WhatDiffers(spec.cmd, seen.cmd)
    [] OTHER -> ""
=============================================================================
