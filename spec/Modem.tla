------------------------------- MODULE Modem --------------------------------
(* The modem: one reader that hands every received message to exactly one   *)
(* destination, any number of callers that send commands, at most one of    *)
(* which waits synchronously.  Messages are records [type, msg] as the      *)
(* serial receiver (module Serial) delivers them.                           *)
EXTENDS Integers, Sequences, TLC

CONSTANTS ALP_MAX,      \* types up to this one carry ALP commands (3)
          T_LOG, T_REBOOT

VARIABLES
  cfg,      \* [raw, cb, rb]: raw mode, callback for responses set, callback for reboots set
  conn,     \* connected
  inbox,    \* received messages no destination has been chosen for
  hand,     \* <<>> or <<[to, m]>>: destination chosen, not handed over
  win,      \* the synchronous window [open, tag, got, done, c]
  unsol, reb,     \* the two lists
  calls     \* the calls in progress: id -> [k, st, tag, ...]
mvars == <<cfg, conn, inbox, hand, win, unsol, reb, calls>>

Closed == [open |-> FALSE, tag |-> -1, got |-> <<>>, done |-> FALSE, c |-> 0]
ModemInit(c, connected) ==
  /\ cfg = c /\ conn = connected /\ inbox = <<>> /\ hand = <<>> /\ win = Closed
  /\ unsol = <<>> /\ reb = <<>> /\ calls = <<>>

IsCmd(m)  == m.msg.t = "cmd"
HasTag(m, tag) == IsCmd(m) /\ m.msg.v.tag = <<tag>>
Completes(m) == m.msg.v.done = 1

(* ------------------------------- the reader ----------------------------- *)
ReaderIdle == inbox = <<>> /\ hand = <<>>
Receive(ms) == /\ ReaderIdle
               /\ inbox' = ms
               /\ UNCHANGED <<cfg, conn, hand, win, unsol, reb, calls>>

Belongs(m) == m.type <= ALP_MAX /\ win.open /\ ~win.done /\ HasTag(m, win.tag)
Destination(m) ==
  CASE Belongs(m)           -> "sync"
    [] m.type <= ALP_MAX    -> IF cfg.cb /\ conn THEN "cb" ELSE "list"
    [] m.type = T_REBOOT    -> IF cfg.rb THEN "rb" ELSE "reblist"
    [] OTHER                -> "none"

Decide ==
  /\ inbox # <<>> /\ hand = <<>>
  /\ LET m == inbox[1]  d == Destination(m) IN
     /\ inbox' = Tail(inbox)
     /\ win' = IF d = "sync" THEN [win EXCEPT !.got = Append(@, m.msg), !.done = Completes(m)] ELSE win
     /\ hand' = IF d \in {"sync", "none"} THEN <<>> ELSE <<[to |-> d, m |-> m]>>
  /\ UNCHANGED <<cfg, conn, unsol, reb, calls>>

HandToList ==
  /\ hand # <<>> /\ hand[1].to \in {"list", "reblist"}
  /\ hand' = <<>>
  /\ unsol' = IF hand[1].to = "list" THEN Append(unsol, hand[1].m.msg) ELSE unsol
  /\ reb' = IF hand[1].to = "reblist" THEN Append(reb, hand[1].m.msg) ELSE reb
  /\ UNCHANGED <<cfg, conn, inbox, win, calls>>

HandToCallback(to) ==
  /\ hand # <<>> /\ hand[1].to = to
  /\ hand' = <<>>
  /\ UNCHANGED <<cfg, conn, inbox, win, unsol, reb, calls>>

ClearUnsol == unsol' = <<>> /\ UNCHANGED <<cfg, conn, inbox, hand, win, reb, calls>>
ClearReb   == reb' = <<>> /\ UNCHANGED <<cfg, conn, inbox, hand, win, unsol, calls>>

(* ------------------------------- the callers ---------------------------- *)
(* k: "sync" (waits for responses) or "async" (sends only)                  *)
(* st: called -> (open) -> sent -> finished | expired                       *)
NewCall(k, tag) == [k |-> k, st |-> "called", tag |-> tag, res |-> <<>>]
Set(c, x) == calls' = [calls EXCEPT ![c] = x]
St(c, s) == Set(c, [calls[c] EXCEPT !.st = s])

CallBegins(c, k, tag) ==
  /\ c \notin DOMAIN calls
  /\ calls' = (c :> NewCall(k, tag)) @@ calls
  /\ UNCHANGED <<cfg, conn, inbox, hand, win, unsol, reb>>

OpenWindow(c) ==
  /\ c \in DOMAIN calls /\ calls[c].k = "sync" /\ calls[c].st = "called"
  /\ ~win.open                                 \* one synchronous execution at a time
  /\ win' = [open |-> TRUE, tag |-> calls[c].tag, got |-> <<>>, done |-> FALSE, c |-> c]
  /\ St(c, "open")
  /\ UNCHANGED <<cfg, conn, inbox, hand, unsol, reb>>

MaySend(c) == c \in DOMAIN calls /\ calls[c].st = (IF calls[c].k = "sync" THEN "open" ELSE "called")
Sent(c) ==
  /\ MaySend(c)
  /\ St(c, "sent")
  /\ UNCHANGED <<cfg, conn, inbox, hand, win, unsol, reb>>

SendFails(c) ==
  /\ MaySend(c)
  /\ St(c, "failing")
  /\ UNCHANGED <<cfg, conn, inbox, hand, win, unsol, reb>>

CloseFailed(c) ==
  /\ c \in DOMAIN calls /\ calls[c].st = "failing"
  /\ St(c, "failed")
  /\ win' = IF calls[c].k = "sync" THEN Closed ELSE win
  /\ UNCHANGED <<cfg, conn, inbox, hand, unsol, reb>>

Complete(c) ==
  /\ c \in DOMAIN calls /\ calls[c].k = "sync" /\ calls[c].st = "sent" /\ win.done
  /\ Set(c, [calls[c] EXCEPT !.st = "finished", !.res = win.got])
  /\ win' = Closed
  /\ UNCHANGED <<cfg, conn, inbox, hand, unsol, reb>>

Expire(c) ==
  /\ c \in DOMAIN calls /\ calls[c].k = "sync" /\ calls[c].st = "sent" /\ ~win.done
  /\ Set(c, [calls[c] EXCEPT !.st = "expired", !.res = <<>>])
  /\ win' = Closed
  /\ UNCHANGED <<cfg, conn, inbox, hand, unsol, reb>>

Connected == /\ conn' = TRUE
             /\ UNCHANGED <<cfg, inbox, hand, win, unsol, reb, calls>>

\* the state in which a call may return, with what
MayReturn(c) == c \in DOMAIN calls /\ calls[c].st \in {"finished", "expired", "failed"} \cup (IF calls[c].k = "async" THEN {"sent"} ELSE {})
Drop(c) == [d \in DOMAIN calls \ {c} |-> calls[d]]
CallReturns(c) ==
  /\ MayReturn(c)
  /\ calls' = Drop(c)
  /\ UNCHANGED <<cfg, conn, inbox, hand, win, unsol, reb>>
=============================================================================
