--------------------------- MODULE ExportLayouts ---------------------------
(* Prints every layout as JSON, so that the input generators sample from    *)
(* the specification itself instead of a second description of the format.  *)
EXTENDS Display, Json, IOUtils

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == MinOf(S) + Cardinality(S) - 1   \* only used for intervals
Vals(S) == IF Cardinality(S) <= 300 THEN SetToSeq(S) ELSE <<MinOf(S), MaxOf(S)>>
IsRange(S) == Cardinality(S) > 300

RECURSIVE X(_)
X(items) ==
  [i \in 1..Len(items) |->
    LET it == items[i] IN
    CASE it.k = "u"  -> [k |-> "u", n |-> it.n, w |-> it.w, vals |-> Vals(it.vals), range |-> IsRange(it.vals)]
      [] it.k = "s"  -> [k |-> "s", n |-> it.n, vals |-> Vals(it.vals), range |-> IsRange(it.vals)]
      [] it.k = "if" -> [k |-> "if", n |-> it.n, vals |-> Vals(it.vals), sub |-> X(it.sub)]
      [] it.k = "rep" -> [k |-> "rep", n |-> it.n, subs |-> [j \in 1..4 |-> X(it.subs[j])]]
      [] OTHER -> it]

VARIABLE x
Init == x = 0
Next == UNCHANGED x
Actions == [op \in EncodableOps |-> X(LayoutOf[op])]
Out == [labels |-> SetToSeq({<<f, LabelsOf[f]>> : f \in DOMAIN LabelsOf}),
        actions |-> SetToSeq({<<op, Actions[op]>> : op \in EncodableOps}),
        status |-> X(StatusBody),
        files |-> SetToSeq({<<f, X(FileLayout[f])>> : f \in DOMAIN FileLayout}),
        structs |-> SetToSeq({<<f, X(StructLayout[f])>> : f \in DOMAIN StructLayout}),
        fgHead |-> X(FgHead), npHead |-> X(NpHead), tpHead |-> X(TpHead), bg |-> X(BgLayout)]
ASSUME JsonSerialize(IOEnv.OUT, Out)
=============================================================================
