------------------------- MODULE MC_CompressedTime -------------------------
(* The compression is what it is supposed to be: every Step-th duration,    *)
(* and always those about the representable values.                         *)
EXTENDS CompressedTime
CONSTANT Step
VARIABLES v, up
Near == UNION {{Value(e, m) - 1, Value(e, m), Value(e, m) + 1} : e \in 0..7, m \in 1..31} \cup (MaxDuration..MaxDuration + 70)
Init == v \in {k * Step : k \in 0..(MaxDuration \div Step)} \cup Near /\ up \in BOOLEAN
Next == UNCHANGED <<v, up>>
C == Compress(v, up)
InRange == v <= MaxDuration => C[1] \in 0..7 /\ C[2] \in 0..31
Rounds == v <= MaxDuration => IF up THEN Value(C[1], C[2]) >= v /\ Value(C[1], C[2]) - v < Pow4[C[1] + 1]
                                    ELSE Value(C[1], C[2]) <= v /\ v - Value(C[1], C[2]) < Pow4[C[1] + 1]
Exact == v <= MaxDuration /\ v % Pow4[C[1] + 1] = 0 => Value(C[1], C[2]) = v
\* no smaller exponent would do
Minimal == v <= MaxDuration => \A e \in 0..(C[1] - 1) : Value(e, 31) < v
Refused == v > MaxDuration => C = None
=============================================================================
