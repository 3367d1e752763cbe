---------------------------- MODULE TraceObjects ----------------------------
(* Recorded histories of operations on many objects are behaviours of       *)
(* Objects.  After every operation r.seen holds what is observed of the     *)
(* objects that are new or not observed as before.                          *)
EXTENDS Objects, Registry, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES t, c, over
vars == <<objs, touched, t, c, over>>
Op == Trace[t].ops[c + 1]
Fail(why) == PrintT(<<"FAIL", t, "operation " \o ToString(c + 1) \o ": " \o why>>)

TagOf(e) == IF Len(e.r.seen) > 0 /\ \E s \in 1..Len(e.r.seen) : e.r.seen[s].o = e.o
            THEN LET s == CHOOSE s \in 1..Len(e.r.seen) : e.r.seen[s].o = e.o IN
                 IF e.r.seen[s].odd = "" /\ Len(e.r.seen[s].v.tag) = 1 THEN e.r.seen[s].v.tag ELSE <<0>>
            ELSE <<0>>
Given(cmd, e) == [cmd EXCEPT !.kind = "req", !.tag = IF e.fix = 1 THEN @ ELSE TagOf(e)]

\* the object an operation creates
Made(e) ==
  CASE e.op = "cmd"  -> Cmd(Given(e.cmd, e), e.gen = 1)
    [] e.op = "bare" -> Cmd([EmptyCmd EXCEPT !.kind = "req", !.tag = IF e.tag >= 0 THEN <<e.tag>> ELSE TagOf(e)], TRUE)
    [] e.op = "fact" -> Cmd([EmptyCmd EXCEPT !.kind = "req", !.tag = IF e.fix = 1 THEN e.cmd.tag ELSE TagOf(e), !.actions = FactoryActions(e.a)], TRUE)
    [] e.op = "pcmd" -> Cmd(DecCmd(e.b).cmd, FALSE)
    [] e.op = "fg"   -> [t |-> "fg", n |-> "", v |-> e.f, tagged |-> e.gen = 1]
    [] e.op = "build" -> Obj(e.t, e.n, e.toks)
    [] e.op = "parse" -> Obj(e.t, e.n, Dec(IF e.t = "file" THEN FileLayout[e.n] ELSE StructLayout[e.n], e.b, 0).toks)
    [] e.op = "dflt" -> Obj(Default[e.name].t, Default[e.name].n, Default[e.name].v)
    [] e.op = "sys"  -> Obj("sys", "", [i \in 1..Cardinality(Files) |-> <<i - 1, i - 1, Size(i - 1)>>])
Readable(e) ==
  CASE e.op = "pcmd" -> DecCmd(e.b).why = ""
    [] e.op = "parse" -> Dec(IF e.t = "file" THEN FileLayout[e.n] ELSE StructLayout[e.n], e.b, 0).why = ""
    [] OTHER -> TRUE

Shows(o, s) ==
  IF s.odd # "" THEN "has an unexpected shape"
  ELSE IF o.t # "sys" /\ s.out \notin Octets(o) THEN "has other octets than it should"
  ELSE IF o.t = "cmd" THEN (IF WhatDiffers(o.v, s.v) = "" THEN "" ELSE "has another " \o WhatDiffers(o.v, s.v))
  ELSE IF o.t = "fg" THEN (IF FrameDiffers(o.v, s.v) = "" THEN "" ELSE "has another " \o FrameDiffers(o.v, s.v))
  ELSE IF o.n # "ifconf" /\ s.v # o.v THEN "has other field values than it should"
  ELSE ""

Judge(e, now) ==      \* now: the objects after the operation
  IF e.r.exc # "" THEN "a valid operation fails"
  ELSE IF \E s \in 1..Len(e.r.seen) : e.r.seen[s].o # e.o THEN "an operation on one object changes another"
  ELSE IF Len(e.r.seen) = 1 /\ e.op = "look" THEN "looking at an object changes it"
  ELSE IF Len(e.r.seen) = 0 THEN (IF e.op \in {"look", "drop"} THEN "" ELSE "the operation has no effect")
  ELSE LET w == Shows(now[e.o], e.r.seen[1]) IN IF w = "" THEN "" ELSE "the object " \o w

Init == /\ t \in 1..N /\ c = 0 /\ objs = <<>> /\ touched = 0
        /\ over = ("dead" \in DOMAIN Trace[t])
        /\ IF over THEN PrintT(<<"FAIL", t, "the code does not return">>) ELSE TRUE
Step ==
  /\ ~over /\ c < Len(Trace[t].ops)
  /\ LET e == Op IN
     IF ~Readable(e) THEN Fail("machinery: request is not a value of the specification") /\ over' = TRUE /\ UNCHANGED <<objs, touched, t, c>>
     ELSE /\ CASE e.op = "add" -> Add(e.o, <<e.toks>>)
               [] e.op = "look" -> Look(e.o)
               [] e.op = "drop" -> Drop(e.o)
               [] OTHER -> New(e.o, Made(e))
          /\ LET bad == e.op # "drop" /\ ~Valid(objs'[e.o])  w == IF bad THEN "machinery: request is not a value of the specification" ELSE Judge(e, objs') IN
             IF w = "" THEN c' = c + 1 /\ over' = FALSE ELSE Fail(w) /\ over' = TRUE /\ c' = c
          /\ UNCHANGED t
End == ~over /\ c = Len(Trace[t].ops) /\ over' = TRUE /\ PrintT(<<"OK", t>>) /\ UNCHANGED <<objs, touched, t, c>>
Next == Step \/ End
=============================================================================
