----------------------------- MODULE Factories -----------------------------
(* What the command factories put into a command: an optional forward       *)
(* action followed by one action on a file.                                 *)
EXTENDS Alp

DefaultD7 == <<<<"f.iface", <<IfD7>>>>, <<"f.d7.qos.stop", <<0>>>>, <<"f.d7.qos.record", <<0>>>>, <<"f.d7.qos.retry", <<0>>>>,
               <<"f.d7.qos.resp", <<0>>>>, <<"f.d7.dorm.exp", <<0>>>>, <<"f.d7.dorm.mant", <<0>>>>,
               <<"f.d7.addr.idtype", <<NOID>>>>, <<"f.d7.addr.nls", <<0>>>>, <<"f.d7.addr.ac", <<0>>>>>>
Fwd(f) ==
  IF f = <<>> THEN <<>>
  ELSE << <<<<"rfu7", <<0>>>>, <<"resp", <<0>>>>, <<"op", <<FORWARD>>>>>> \o (IF Len(f) = 1 /\ f[1][2] = <<IfD7>> THEN DefaultD7 ELSE f) >>
Plain(op, rest) == << <<<<"group", <<0>>>>, <<"resp", <<0>>>>, <<"op", <<op>>>>>> \o rest >>
Off(fid, off) == <<<<"o.fid", <<fid>>>>, <<"o.off", <<off>>>>>>
FactoryActions(a) ==
  Fwd(a.fwd) \o
  CASE a.f = "read"    -> Plain(READ, Off(a.fid, a.off) \o <<<<"len", <<a.len>>>>>>)
    [] a.f = "write"   -> Plain(WRITE, Off(a.fid, a.off) \o <<<<"len", <<Len(a.data)>>>>, <<"data", a.data>>>>)
    [] a.f = "return"  -> Plain(RETDATA, Off(a.fid, a.off) \o <<<<"len", <<Len(a.data)>>>>, <<"data", a.data>>>>)
    [] a.f = "readhdr" -> Plain(READHDR, <<<<"fid", <<a.fid>>>>>>)
    [] a.f = "writehdr" -> Plain(WRITEHDR, <<<<"fid", <<a.fid>>>>>> \o a.hdr)
    [] a.f = "create"  -> Plain(CREATE, <<<<"fid", <<a.fid>>>>>> \o a.hdr)

(* the octets the code emits for an interface status: without the length    *)
(* octet the decoder expects (recorded known finding, asserted by a test)   *)
NoLen(st) == IF Len(st) = 1 THEN <<64 + STATUS, Val(st, "iface")>> ELSE LET c == EncStatus(st).out IN <<c[1], c[2]>> \o SubSeq(c, 4, Len(c))
EncNoLen(cmd, withTag) ==
  LET as == EncActions(cmd.actions, 1)
      tag == IF withTag THEN <<cmd.send * 128 + TAGREQ, cmd.tag[1]>> ELSE <<>>
  IN tag \o NoLen(cmd.status) \o as.out
=============================================================================
