------------------------------ MODULE TraceCrc ------------------------------
(* checksums computed by the real code *)
EXTENDS Bytes, TLC, Json, IOUtils
Trace  == ndJsonDeserialize(IOEnv.TRACE)
N      == Len(Trace)
Stride == LET s == atoi(IOEnv.STRIDE) IN IF s < N THEN s ELSE N
Verdict(e) == IF "dead" \in DOMAIN e.r THEN "the code does not return"
              ELSE IF \E j \in 1..Len(e.ms) : e.r.crc[j] # U16(Crc16(e.ms[j])) THEN "checksum differs" ELSE ""
VARIABLE i
Init == i \in (1 - Stride)..0
Next == /\ i + Stride <= N
        /\ i' = i + Stride
        /\ LET v == Verdict(Trace[i']) IN IF v = "" THEN TRUE ELSE PrintT(<<"FAIL", i', v>>)
=============================================================================
