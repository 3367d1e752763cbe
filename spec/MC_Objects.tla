----------------------------- MODULE MC_Objects -----------------------------
(* All histories of a few operations on up to three objects.                *)
EXTENDS Objects
CONSTANT Depth
VARIABLE n
Ids == 1..3
Nop == Default["nop"].v
Kinds == {"cmd", "old", "qos", "phystatus2s", "nop"}
Value(d) == CASE d = "cmd" -> Cmd([EmptyCmd EXCEPT !.tag = <<7>>, !.kind = "req"], TRUE)
              [] d = "old" -> Cmd([EmptyCmd EXCEPT !.actions = <<Nop>>], FALSE)
              [] OTHER -> Obj(Default[d].t, Default[d].n, Default[d].v)
AllDefaults == \A d \in DOMAIN Default : Valid(Value(d))
ASSUME AllDefaults
Init == objs = <<>> /\ touched = 0 /\ n = 0
Next == /\ n < Depth /\ n' = n + 1
        /\ \E k \in Ids : \/ k \notin Live /\ \E d \in Kinds : New(k, Value(d))
                          \/ k \in Live /\ Drop(k)
                          \/ Look(k)
                          \/ Add(k, <<Nop>>)
\* every object has octets, and adding to a command only appends
AllValid == \A k \in Live : Valid(objs[k]) /\ Cardinality(Octets(objs[k])) = 1
Appends == [][\A k \in Live : (k \in DOMAIN objs' /\ objs'[k] # objs[k]) =>
               LET a == CHOOSE x \in Octets(objs[k]) : TRUE  b == CHOOSE x \in Octets(objs'[k]) : TRUE IN
               Len(b) > Len(a) /\ SubSeq(b, 1, Len(a)) = a]_<<objs, touched>>
=============================================================================
