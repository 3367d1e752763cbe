----------------------------- MODULE TraceModem -----------------------------
(* Recorded runs of the real Modem class are behaviours of Modem.  A run is *)
(* a totally ordered list of observable events; the steps the code takes in *)
(* between (choosing a destination, opening and closing the synchronous     *)
(* window, becoming connected) are hidden and found by the search.          *)
(*                                                                          *)
(*  call/ret  a caller enters/leaves execute_command or connect             *)
(*  w         octets written to the port   wf  the port refuses to write    *)
(*  rd        the reader gets octets       rq  the reader asks for more     *)
(*  rf cl op  reading fails, port closed, port opened (ok = 0: fails)       *)
(*  cb rb     callbacks                                                     *)
(*  lb/le     a caller begins/ends to get or clear one of the two lists     *)
(*  get       the lists in the end                                          *)
(*  stop stopped start  reading is stopped and started again                *)
(*  chk       a list returned earlier, looked at again                      *)
(*  end       nothing more can happen; left: octets never read              *)
EXTENDS Modem, Json, IOUtils

S == INSTANCE Serial WITH raw <- FALSE, rest <- <<>>, buf <- <<>>, out <- <<>>, parsed <- 0, skipped <- 0, down <- 0, errs <- 0
ASSUME ALP_MAX = S!PING_RESP /\ T_LOG = S!LOGGING /\ T_REBOOT = S!REBOOTED

VARIABLES t, j,      \* run, events consumed
          buf,       \* octets received, not yet part of a message
          wire,      \* octets written, not yet a whole frame
          writers,   \* whose octets are on the wire
          up,        \* number of the next frame
          port,      \* "open", "failed", "closed"
          reading,   \* "on", "stopping", "off"
          info       \* call id -> what the trace knows about the call
vars == <<mvars, t, j, buf, wire, writers, up, port, reading, info>>
tvars == <<t, buf, wire, writers, up, port, reading, info>>

Runs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Runs)
Debug == "DEBUG" \in DOMAIN IOEnv
Ev == Runs[t].ev
E == Ev[j + 1]
More == j < Len(Ev)
Slack == 500     \* ms: what counts as promptly

Init ==
  /\ t \in 1..N
  /\ ModemInit([raw |-> Runs[t].cfg.raw = 1, cb |-> Runs[t].cfg.cb = 1, rb |-> Runs[t].cfg.rb = 1], FALSE)
  /\ j = 0 /\ buf = <<>> /\ wire = <<>> /\ writers = {} /\ up = 0 /\ port = "open" /\ reading = "on" /\ info = <<>>

Raw == cfg.raw
Consume == /\ j' = j + 1
           /\ IF Debug THEN PrintT(<<"AT", t, j + 1>>) ELSE TRUE

(* a delivered object is what the specification decodes *)
Same(spec, seen) ==
  /\ seen.odd = "" /\ seen.t = spec.t
  /\ IF spec.t = "cmd" THEN S!WhatDiffers(spec.v, seen.v) = "" ELSE spec.v = seen.v
SameList(specs, seens) == Len(specs) = Len(seens) /\ \A i \in 1..Len(specs) : Same(specs[i], seens[i])

(* ------------------------------ the reader ------------------------------ *)
Rd == /\ E.e = "rd" /\ port = "open" /\ reading # "off"
      /\ LET ref == S!Reference(buf \o E.o, Raw) IN
         /\ Receive(ref.out)
         /\ buf' = ref.buf
      /\ UNCHANGED <<t, wire, writers, up, port, reading, info>>
\* an intact frame whose payload has no specified meaning: what the code makes of it, and of what follows, is not judged
Unspecified ==
  /\ E.e = "rd" /\ port = "open" /\ reading # "off"
  /\ S!Scan(S!Reference(buf \o E.o, Raw).buf, Raw).k = "unspec"
  /\ PrintT(<<"OK", t>>) /\ PrintT(<<"TAG", "unspecified">>)
  /\ j' = Len(Ev) /\ UNCHANGED mvars /\ UNCHANGED tvars
Rq == /\ E.e = "rq" /\ ReaderIdle /\ UNCHANGED mvars /\ UNCHANGED tvars
Rf == /\ E.e = "rf" /\ ReaderIdle
      /\ port' = IF port = "closed" THEN "closed" ELSE "failed"
      /\ UNCHANGED mvars /\ UNCHANGED <<t, buf, wire, writers, up, reading, info>>
Cl == /\ E.e = "cl"
      /\ port' = "closed"
      /\ UNCHANGED mvars /\ UNCHANGED <<t, buf, wire, writers, up, reading, info>>
\* what was received of an incomplete frame before the failure may be kept or dropped
Op == /\ E.e = "op" /\ port = "closed"
      /\ port' = IF E.ok = 1 THEN "open" ELSE "closed"
      /\ buf' \in {buf, <<>>}
      /\ UNCHANGED mvars /\ UNCHANGED <<t, wire, writers, up, reading, info>>
Cb(kind, to) == /\ E.e = kind /\ hand # <<>> /\ Same(hand[1].m.msg, E.m) /\ HandToCallback(to) /\ UNCHANGED tvars

Get == /\ E.e = "get" /\ SameList(IF E.l = "unsol" THEN unsol ELSE reb, E.items)
       /\ UNCHANGED mvars /\ UNCHANGED tvars
\* getting or clearing a list takes effect at one moment between its beginning and its end
Lb == /\ E.e = "lb"
      /\ info' = (E.c :> [ev |-> E, was |-> FALSE, done |-> FALSE, val |-> <<>>]) @@ info
      /\ UNCHANGED mvars /\ UNCHANGED <<t, buf, wire, writers, up, port, reading>>
Le == /\ E.e = "le" /\ info[E.c].done /\ SameList(info[E.c].val, E.items)
      /\ info' = [x \in DOMAIN info \ {E.c} |-> info[x]]
      /\ UNCHANGED mvars /\ UNCHANGED <<t, buf, wire, writers, up, port, reading>>
Look(c) ==
  /\ c \in DOMAIN info /\ info[c].ev.e = "lb" /\ ~info[c].done
  /\ LET l == info[c].ev.l IN
     IF info[c].ev.k = "get"
     THEN /\ info' = [info EXCEPT ![c].done = TRUE, ![c].val = IF l = "unsol" THEN unsol ELSE reb]
          /\ UNCHANGED mvars
     ELSE /\ info' = [info EXCEPT ![c].done = TRUE]
          /\ IF l = "unsol" THEN ClearUnsol ELSE ClearReb

Stop    == /\ E.e = "stop" /\ reading' = "stopping" /\ UNCHANGED mvars /\ UNCHANGED <<t, buf, wire, writers, up, port, info>>
Stopped == /\ E.e = "stopped" /\ E.alive = 0 /\ E.exc = "" /\ ReaderIdle /\ reading' = "off" /\ UNCHANGED mvars /\ UNCHANGED <<t, buf, wire, writers, up, port, info>>
Start   == /\ E.e = "start" /\ reading' = "on" /\ UNCHANGED mvars /\ UNCHANGED <<t, buf, wire, writers, up, port, info>>

(* ------------------------------ the callers ----------------------------- *)
Waits(e) == ~Raw /\ ((e.k = "exec" /\ e.to > 0) \/ (e.k = "connect" /\ ~conn /\ e.check = 1))
Sends(e) == e.k = "exec" \/ (e.k = "connect" /\ ~conn /\ e.check = 1)
Call == /\ E.e = "call"
        /\ IF Sends(E) THEN CallBegins(E.c, IF Waits(E) THEN "sync" ELSE "async", E.tag)
           ELSE UNCHANGED mvars
        /\ info' = (E.c :> [ev |-> E, sends |-> Sends(E), was |-> conn, sentAt |-> -1, doneAt |-> -1, res |-> <<>>]) @@ info
        /\ UNCHANGED <<t, buf, wire, writers, up, port, reading>>

(* the command a call has to put on the wire: for connect, one that reads   *)
(* the UID and the firmware version file in this or the other order         *)
ReadFile(id, len) == <<<<"group", <<0>>>>, <<"resp", <<0>>>>, <<"op", <<1>>>>, <<"o.fid", <<id>>>>, <<"o.off", <<0>>>>, <<"len", <<len>>>>>>
Uid == ReadFile(0, 8)   Firmware == ReadFile(2, 17)
ConnectCmd(tag, as) == [S!EmptyCmd EXCEPT !.tag = <<tag>>, !.actions = as]
Payloads(e) == IF e.k = "exec" THEN {S!EncCmd(e.cmd, TRUE).out}
               ELSE {S!EncCmd(ConnectCmd(e.tag, as), TRUE).out : as \in {<<Uid, Firmware>>, <<Firmware, Uid>>}}
FrameFor(c) == {S!Frame(up, S!ALP_DATA, p) : p \in Payloads(info[c].ev)}

(* octets of different callers never mix: a frame is completed by the one who began it *)
W == /\ E.e = "w" /\ E.c \in DOMAIN calls
     /\ MaySend(E.c)
     /\ writers \in {{}, {E.c}}
     /\ LET now == wire \o E.o IN
        IF now \in FrameFor(E.c)
        THEN /\ Sent(E.c)
             /\ wire' = <<>> /\ writers' = {} /\ up' = (up + 1) % 256
             /\ info' = [info EXCEPT ![E.c].sentAt = E.v]
        ELSE /\ \E f \in FrameFor(E.c) : Len(now) < Len(f) /\ SubSeq(f, 1, Len(now)) = now
             /\ wire' = now /\ writers' = {E.c}
             /\ UNCHANGED mvars /\ UNCHANGED <<up, info>>
     /\ UNCHANGED <<t, buf, port, reading>>
(* the port refuses a frame: nothing of it is on the wire; whether its number counts is not specified,
   the next frame tells *)
Wf == /\ E.e = "wf" /\ E.c \in DOMAIN calls /\ wire = <<>>
      /\ SendFails(E.c)
      /\ up' \in {up, (up + 1) % 256}
      /\ UNCHANGED <<t, buf, wire, writers, port, reading, info>>

(* results *)
Text(limbs) == limbs
Hex == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
RECURSIVE HexOf(_, _)
HexOf(o, i) == IF i > Len(o) THEN "" ELSE Hex[(o[i] \div 16) + 1] \o Hex[(o[i] % 16) + 1] \o HexOf(o, i + 1)
RECURSIVE StripFrom(_, _)
\* lower-case hexadecimal without leading zeros, as a sequence of digits
Digits(o) == [i \in 1..(2 * Len(o)) |-> LET b == o[(i + 1) \div 2] IN IF i % 2 = 1 THEN b \div 16 ELSE b % 16]
StripFrom(d, i) == IF i = Len(d) \/ d[i] # 0 THEN SubSeq(d, i, Len(d)) ELSE StripFrom(d, i + 1)
UidDigits(o) == StripFrom(Digits(o), 1)

Returned(cmd, file) ==   \* the contents of a file returned in a command, in order
  LET sel == SelectSeq(cmd.actions, LAMBDA a : S!Val(a, "op") = S!RETDATA /\ S!Val(a, "o.fid") = file)
  IN [i \in 1..Len(sel) |-> [off |-> S!Val(sel[i], "o.off"), data |-> S!Limbs(sel[i], "data")]]
Plain(rs, len) == Len(rs) = 1 /\ rs[1].off = 0 /\ Len(rs[1].data) = len
Ascii(s) == \A i \in 1..Len(s) : s[i] < 128
Identified(msgs) == LET u == Returned(msgs[1].v, 0) f == Returned(msgs[1].v, 2) IN Len(msgs) = 1 /\ Plain(u, 8) /\ Plain(f, 17) /\ Ascii(SubSeq(f[1].data, 5, 17))
Anonymous(msgs) == LET u == Returned(msgs[1].v, 0)  f == Returned(msgs[1].v, 2) IN
  /\ u = <<>> \/ f = <<>>
  /\ u = <<>> \/ Plain(u, 8)
  /\ f = <<>> \/ Plain(f, 17)
Lacking(msgs) == Len(msgs) = 0 \/ (Len(msgs) = 1 /\ Anonymous(msgs))
\* everything else (several responses, odd lengths or offsets, repeated files, no text) is not specified

InTime(x, e) == e.v <= x.doneAt + Slack
Late(x, e) == e.v >= x.ev.v + x.ev.to /\ e.v <= (IF x.sentAt > x.ev.v THEN x.sentAt ELSE x.ev.v) + x.ev.to + Slack
AtOnce(x, e) == e.v <= (IF x.sentAt > x.ev.v THEN x.sentAt ELSE x.ev.v) + Slack

RetExec ==
  /\ E.e = "ret" /\ info[E.c].ev.k = "exec"
  /\ MayReturn(E.c)
  /\ LET x == calls[E.c]  y == info[E.c] IN
     CASE x.st = "finished" -> E.exc = "" /\ SameList(x.res, E.res) /\ InTime(y, E)
       [] x.st = "expired"  -> E.exc = "" /\ E.res = <<>> /\ Late(y, E)
       [] x.st = "failed"   -> E.exc # ""
       [] x.st = "sent"     -> E.exc = "" /\ E.res = <<>> /\ AtOnce(y, E)
  /\ info' = [info EXCEPT ![E.c].res = calls[E.c].res]
  /\ CallReturns(E.c)
  /\ UNCHANGED <<t, buf, wire, writers, up, port, reading>>

(* connect *)
ConnStays == E.exc = "" /\ E.val # 1 /\ E.conn = 0
ConnMade  == E.exc = "" /\ E.val = 1 /\ E.conn = 1
RetConnect ==
  /\ E.e = "ret" /\ info[E.c].ev.k = "connect"
  /\ LET y == info[E.c] IN
     IF y.was THEN E.exc = "" /\ E.conn = 1 /\ UNCHANGED mvars          \* already connected: does nothing
     ELSE IF ~y.sends THEN ConnMade /\ conn /\ E.v <= y.ev.v + Slack /\ UNCHANGED mvars
     ELSE /\ MayReturn(E.c)
          /\ CallReturns(E.c)
          /\ LET x == calls[E.c] IN
             CASE x.st = "failed"  -> E.exc # ""
               [] x.st = "sent"    -> ConnMade /\ conn /\ AtOnce(y, E)
               [] x.st = "expired" -> ConnStays /\ ~conn /\ Late(y, E)
               [] x.st = "finished" ->
                    /\ InTime(y, E)
                    /\ IF Identified(x.res)
                       THEN LET u == Returned(x.res[1].v, 0)[1].data  f == Returned(x.res[1].v, 2)[1].data IN
                            ConnMade /\ conn /\ E.uid = UidDigits(u) /\ E.fw = f
                       ELSE IF Lacking(x.res) THEN ConnStays /\ ~conn
                       ELSE (E.conn = 1) = conn
  /\ UNCHANGED tvars

Chk == /\ E.e = "chk" /\ SameList(info[E.c].res, E.res) /\ UNCHANGED mvars /\ UNCHANGED tvars

End == /\ E.e = "end" /\ E.left = 0 /\ E.hang = 0 /\ ReaderIdle /\ wire = <<>>
       /\ PrintT(<<"OK", t>>)
       /\ UNCHANGED mvars /\ UNCHANGED tvars

(* ------------------------------ hidden steps ---------------------------- *)
Stamp == IF j = 0 THEN 0 ELSE Ev[j].v
CanConnect(c) ==
  /\ c \in DOMAIN info /\ info[c].ev.k = "connect" /\ ~info[c].was
  /\ IF ~info[c].sends \/ Raw THEN TRUE
     ELSE c \in DOMAIN calls /\ calls[c].st = "finished" /\ ~Lacking(calls[c].res)
Hidden ==
  /\ j' = j
  /\ \/ Decide /\ (IF win'.done /\ ~win.done THEN info' = [info EXCEPT ![win.c].doneAt = Stamp] ELSE UNCHANGED info)
     \/ HandToList /\ UNCHANGED info
     \/ \E c \in DOMAIN calls : (OpenWindow(c) \/ CloseFailed(c) \/ Complete(c) \/ Expire(c)) /\ UNCHANGED info
     \/ \E c \in DOMAIN info : Look(c)
     \/ ~conn /\ (\E c \in DOMAIN info : CanConnect(c)) /\ Connected /\ UNCHANGED info
  /\ UNCHANGED <<t, buf, wire, writers, up, port, reading>>

Visible == /\ More /\ Consume
           /\ \/ Rd \/ Rq \/ Rf \/ Cl \/ Op \/ Cb("cb", "cb") \/ Cb("rb", "rb") \/ Get \/ Lb \/ Le
              \/ Stop \/ Stopped \/ Start \/ Call \/ W \/ Wf \/ RetExec \/ RetConnect \/ Chk \/ End
Next == Visible \/ (More /\ Hidden) \/ (More /\ Unspecified)

(* invariants of Modem along real runs *)
WindowOwned == win.open => win.c \in DOMAIN calls
=============================================================================
