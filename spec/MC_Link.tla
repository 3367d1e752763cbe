------------------------------ MODULE MC_Link -------------------------------
(* The receiver of Serial, fed by a sender through a lossy line, behaves as *)
(* Link says: each frame that arrives intact is delivered once, in order,   *)
(* as soon as its last octet is there, and losses show as gaps.             *)
EXTENDS Link, IOUtils
MaxSend == atoi(IOEnv.MAXSEND)
Payloads == {<<>>, <<35, 7>>, <<52, 192>>}
VARIABLES sent, up
vars == <<rxvars, sent, up>>

Init == (\E r \in BOOLEAN : RxInit(<<>>, r)) /\ sent = <<>> /\ up \in {0, 1, 191, 255}
Send(p, fate, bit) ==
  LET s == [fate |-> fate, counter |-> up, frame |-> Frame(up, ALP_DATA, p), flip |-> bit] IN
  /\ Len(sent) < MaxSend
  /\ fate = DAMAGED => Quiet(Flip(s.frame, bit))
  /\ sent' = Append(sent, s)
  /\ up' = (up + 1) % 256
  /\ rest' = rest \o OnTheWire(s)
  /\ UNCHANGED <<raw, buf, out, parsed, skipped, down, errs>>
Receive == /\ (\E n \in 1..Len(rest) : Feed(n)) \/ Deliver \/ Discard
           /\ UNCHANGED <<sent, up>>
Next == \/ \E p \in Payloads : \/ Send(p, LOST, 0) \/ Send(p, INTACT, 0)
                               \/ \E bit \in {0, 9, 8 * Len(p) + 15} : bit < 8 * Len(p) + 16 /\ Send(p, DAMAGED, bit)
        \/ Receive

RECURSIVE Line(_)
Line(s) == IF s = <<>> THEN <<>> ELSE OnTheWire(s[1]) \o Line(SubSeq(s, 2, Len(s)))
Received == Len(Line(sent)) - Len(rest)
Refines == Idle => LET got == Arrived(sent, Received) IN
             /\ out = [i \in 1..Len(got) |-> [type |-> ALP_DATA, msg |-> Msg(got[i], raw)]]
             /\ errs = Gaps(got, 1, 0)
             /\ NoDamage(sent) => skipped = 0
Ordered == Len(out) <= Len(Arrived(sent, Received))
Conserved == parsed + skipped + Len(buf) = Received
=============================================================================
