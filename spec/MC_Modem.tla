------------------------------ MODULE MC_Modem ------------------------------
(* The routing and execution guarantees of Modem, for every history of up   *)
(* to NMSG received messages, NCALL successive synchronous executions and   *)
(* one asynchronous one, connection at any time.  Ghost variables record    *)
(* where each message went and what had happened when it arrived.           *)
EXTENDS Modem, FiniteSets, IOUtils

NMsg  == atoi(IOEnv.NMSG)
NCall == atoi(IOEnv.NCALL)

VARIABLES n,        \* messages received so far
          where,    \* id -> sequence of destinations
          hist,     \* id -> message
          since,    \* id -> the calls that were sent (and not over) when it arrived
          log,      \* destination -> ids in order
          outcome   \* call -> [st, ids] at its return
gvars == <<n, where, hist, since, log, outcome>>
vars == <<mvars, gvars>>

Msg(id, type, tag, done) == [type |-> type, id |-> id, msg |-> [t |-> IF type = 1 THEN "cmd" ELSE "other", v |-> [tag |-> tag, done |-> done], id |-> id]]
Kinds == {<<1, <<1>>, 0>>, <<1, <<1>>, 1>>, <<1, <<2>>, 0>>, <<1, <<2>>, 1>>, <<1, <<>>, 0>>, <<4, <<>>, 0>>, <<5, <<>>, 0>>}
Calls == 1..NCall
Async == 9

Init == /\ \E r, b \in BOOLEAN : ModemInit([raw |-> FALSE, cb |-> r, rb |-> b], FALSE)
        /\ n = 0 /\ where = <<>> /\ hist = <<>> /\ since = <<>> /\ log = [cb |-> <<>>, rb |-> <<>>] /\ outcome = <<>>

Arrive == /\ n < NMsg
          /\ \E k \in Kinds : Receive(<<Msg(n + 1, k[1], k[2], k[3])>>)
          /\ n' = n + 1 /\ hist' = hist \o inbox'
          /\ where' = Append(where, <<>>)
          /\ since' = Append(since, {c \in DOMAIN calls : calls[c].st = "sent"})
          /\ UNCHANGED <<log, outcome>>
Two == /\ n + 1 < NMsg     \* two messages in one read
       /\ \E k, l \in Kinds : Receive(<<Msg(n + 1, k[1], k[2], k[3]), Msg(n + 2, l[1], l[2], l[3])>>)
       /\ n' = n + 2 /\ hist' = hist \o inbox'
       /\ where' = where \o <<<<>>, <<>>>>
       /\ since' = LET s == {c \in DOMAIN calls : calls[c].st = "sent"} IN since \o <<s, s>>
       /\ UNCHANGED <<log, outcome>>
Route == /\ Decide
         /\ where' = [where EXCEPT ![inbox[1].id] = Append(@, <<Destination(inbox[1]), IF Belongs(inbox[1]) THEN win.c ELSE 0>>)]
         /\ UNCHANGED <<n, hist, since, log, outcome>>
Call == \* synchronous executions one after the other, an asynchronous one at any time
  /\ \/ \E c \in Calls, tag \in {1, 2} : /\ c = Cardinality({d \in Calls : d \in DOMAIN outcome}) + 1
                                         /\ CallBegins(c, "sync", tag)
     \/ Async \notin DOMAIN outcome /\ CallBegins(Async, "async", 1)
  /\ UNCHANGED gvars
Ids(ms) == [i \in 1..Len(ms) |-> ms[i].id]
Return == \E c \in DOMAIN calls : /\ CallReturns(c)
                                  /\ outcome' = (c :> [st |-> calls[c].st, tag |-> calls[c].tag, ms |-> calls[c].res]) @@ outcome
                                  /\ UNCHANGED <<n, where, hist, since, log>>
Next ==
  \/ Arrive \/ Two \/ Route \/ Call \/ Return
  \/ (HandToList \/ Connected \/ \E c \in DOMAIN calls : OpenWindow(c) \/ Sent(c) \/ SendFails(c) \/ CloseFailed(c) \/ Complete(c) \/ Expire(c)) /\ UNCHANGED gvars
  \/ \E d \in {"cb", "rb"} : HandToCallback(d) /\ log' = [log EXCEPT ![d] = Append(@, hand[1].m.id)] /\ UNCHANGED <<n, where, hist, since, outcome>>

Sorted(s) == \A i, j \in 1..Len(s) : i < j => s[i] < s[j]
(* C13: at most one destination; each destination in order; none lost *)
OneDestination == \A i \in 1..n : Len(where[i]) <= 1 /\ (ReaderIdle => Len(where[i]) = 1)
InOrder == Sorted(log.cb) /\ Sorted(log.rb) /\ Sorted(Ids(unsol)) /\ Sorted(Ids(reb))
Lists == /\ ReaderIdle => {i \in 1..n : where[i][1][1] = "list"} = {unsol[i].id : i \in 1..Len(unsol)}
         /\ ReaderIdle => {i \in 1..n : where[i][1][1] = "cb"} = {log.cb[i] : i \in 1..Len(log.cb)}
NoCallbackBeforeConnect == ~conn => log.cb = <<>>
(* C12, C14 *)
Results == \A c \in DOMAIN outcome : LET o == outcome[c] IN
  /\ o.st \in {"expired", "failed", "sent"} => o.ms = <<>>
  /\ o.st = "finished" =>
       /\ Len(o.ms) > 0 /\ Sorted(Ids(o.ms))
       /\ \A i \in 1..Len(o.ms) : o.ms[i].t = "cmd" /\ o.ms[i].v.tag = <<o.tag>> /\ (o.ms[i].v.done = 1) = (i = Len(o.ms))
       /\ \A i \in 1..Len(o.ms) : where[o.ms[i].id] = <<<<"sync", c>>>>
(* whatever arrived while a call was waiting and has its tag is in its result, up to the completion *)
NoneMissing == \A c \in DOMAIN outcome : outcome[c].st = "finished" =>
   LET ids == Ids(outcome[c].ms) IN
   \A i \in 1..n : (i <= ids[Len(ids)] /\ c \in since[i] /\ HasTag(hist[i], outcome[c].tag)) => \E j \in 1..Len(ids) : ids[j] = i
(* nothing is left behind: no window without its caller *)
NothingLeft == win.open => (win.c \in DOMAIN calls /\ calls[win.c].st \in {"open", "sent", "failing"})
=============================================================================
