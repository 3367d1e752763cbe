------------------------------ MODULE Objects ------------------------------
(* Objects of a program: each has a value of its own, from which its octets *)
(* and field values follow.  Creating, looking at or dropping an object     *)
(* touches no other one; only adding an action to a command changes it, and *)
(* only it.                                                                 *)
EXTENDS Dll, SystemFiles, Factories, Defaults

VARIABLES objs,     \* the live objects: their values, by number
          touched   \* the object of the last operation

Cmd(v, tagged) == [t |-> "cmd", n |-> "", v |-> v, tagged |-> tagged]
Obj(t, n, v)   == [t |-> t, n |-> n, v |-> v, tagged |-> FALSE]

(* the octets an object may show *)
Octets(o) ==
  CASE o.t = "cmd" -> {EncCmd(o.v, o.tagged).out} \cup (IF o.v.status = <<>> THEN {} ELSE {EncNoLen(o.v, o.tagged)})
    [] o.t = "act" -> {EncAction(o.v).out}
    [] o.t = "fg"  -> {EncFg(o.v, o.tagged).out}
    [] o.t = "file" -> {EncFile(o.n, o.v).out}
    [] o.t = "struct" -> {Enc(StructLayout[o.n], o.v).out}
    [] OTHER -> {<<>>}
Valid(o) ==
  CASE o.t = "cmd" -> EncCmd(o.v, o.tagged).ok
    [] o.t = "act" -> EncAction(o.v).ok
    [] o.t = "fg"  -> EncFg(o.v, o.tagged).ok
    [] o.t = "file" -> EncFile(o.n, o.v).ok
    [] o.t = "struct" -> Enc(StructLayout[o.n], o.v).ok
    [] OTHER -> TRUE

Live == DOMAIN objs
New(k, o)  == /\ objs' = [x \in Live \cup {k} |-> IF x = k THEN o ELSE objs[x]]
              /\ touched' = k
Add(k, as) == /\ k \in Live /\ objs[k].t = "cmd"
              /\ objs' = [objs EXCEPT ![k].v.actions = @ \o as]
              /\ touched' = k
Look(k)    == k \in Live /\ UNCHANGED objs /\ touched' = k
Drop(k)    == /\ objs' = [x \in Live \ {k} |-> objs[x]]
              /\ touched' = k

(* nothing but the object of the operation is ever affected *)
Independent == [][\A x \in Live \ {touched'} : x \in DOMAIN objs' /\ objs'[x] = objs[x]]_<<objs, touched>>
=============================================================================
