-------------------------- MODULE MC_ChannelText --------------------------
(* What is written is read back as the same channel, for every channel that *)
(* has a text form; hence no two channels share a text.                     *)
EXTENDS ChannelText
CONSTANT Step
VARIABLE ch
Headers == Bands \X Classes \X Codings
Indices == {k * Step : k \in 0..(65535 \div Step)} \cup (0..120) \cup (990..1010) \cup (9990..10010) \cup {65534, 65535}
Init == ch \in Headers
Next == Len(ch) = 3 /\ \E n \in Indices : ch' = Append(ch, n)
Reads == Read(Write(ch), Len(ch) = 4) = [why |-> "", ch |-> ch]
Prefix == Len(ch) = 3 => \A n \in {0, 7, 99, 100, 65535} : SubSeq(Write(Append(ch, n)), 1, 5) = Write(ch)
=============================================================================
