---------------------------- MODULE TraceStruct ----------------------------
(* Judges recorded uses of the structure, system file, frame, channel text  *)
(* and compressed time code.  One line of the trace is one use: the request *)
(* and r, what the code did.  Verdict is "" when the specification allows   *)
(* it, otherwise the name of the violated clause.                           *)
EXTENDS Dll, Factories, Registry, Json, IOUtils
Txt == INSTANCE ChannelText
Tim == INSTANCE CompressedTime

Trace  == ndJsonDeserialize(IOEnv.TRACE)
N      == Len(Trace)
Stride == LET s == atoi(IOEnv.STRIDE) IN IF s < N THEN s ELSE N

(* -------------------------- structures and files ------------------------ *)
DecOf(e) == Dec(IF e.t = "file" THEN FileLayout[e.n] ELSE StructLayout[e.n], e.b \o e.tail, 0)
EncOf(e, toks) == IF e.t = "file" THEN EncFile(e.n, toks) ELSE Enc(StructLayout[e.n], toks)
PadMissing(e, d) == e.t = "file" /\ (d.pos \div 8) + Len(Padding[e.n]) > Len(e.b \o e.tail)

StructDecode(e) ==
  LET d == DecOf(e) IN
  CASE d.why = "unspec" -> ""
    [] d.why = "" /\ PadMissing(e, d) -> ""            \* the padding octets need not be there
    [] d.why # "" -> IF e.r.ok = 1 THEN "malformed content is accepted (" \o d.why \o ")" ELSE ""
    [] OTHER -> IF e.r.ok = 0 THEN "well-formed content is refused"
                ELSE IF e.r.odd # "" THEN "decoded object has unexpected shape"
                ELSE IF e.r.toks # d.toks THEN "decoded value differs"
                ELSE IF e.t # "file" /\ e.r.pos # d.pos THEN "decoding does not consume exactly the structure"
                ELSE IF e.r.str # 1 THEN "decoded object cannot be printed"
                ELSE ""

\* number of RSSI samples to the exponent that is stored
Smoothing(n) == CHOOSE x \in 0..7 : 2^(x + 1) >= n /\ \A y \in 0..(x - 1) : 2^(y + 1) < n
WithSamples(toks, n) == IF n = 0 THEN toks
                        ELSE [i \in 1..Len(toks) |-> IF toks[i][1] = "rssism" THEN <<"rssism", <<Smoothing(n)>> >> ELSE toks[i]]

StructEncode(e) ==
  LET toks == WithSamples(e.toks, e.smp)  want == EncOf(e, toks) IN
  IF ~want.ok THEN "machinery: request is not a value of the specification"
  ELSE IF e.r.exc # "" THEN "serialising a valid value fails"
  ELSE IF e.r.ints # 1 THEN "iteration yields something else than octets"
  ELSE IF e.r.out # want.out THEN "octets differ from the specification"
  ELSE IF e.r.again # want.out THEN "serialising again gives other octets"
  ELSE IF e.t = "file" /\ e.n \in FixedSize /\ e.r.len # Len(want.out) THEN "declared size is not the serialised size"
  ELSE IF e.n = "addressee" /\ e.r.idlen # <<Len(want.out) - 2, Len(want.out) - 2>> THEN "the length of the identifier differs"
  ELSE IF e.n = "ifconf" THEN ""                        \* has no parser
  ELSE IF e.r.ok # 1 THEN "serialised octets cannot be parsed"
  ELSE IF e.r.odd # "" THEN "parsed object has unexpected shape"
  ELSE IF e.r.toks # toks THEN "round trip changes the value"
  ELSE ""

LoRaNames == {p \o n : p \in {"x.", "f.abp.", "f.otaa."}, n \in {"adr", "ack", "port", "dr", "devaddr", "netid"}}
(* acceptance of values: exactly those the layout can represent *)
Accepts(ok, r, late) ==
  IF ok /\ r.acc # 1 THEN "a value inside the range is refused"
  ELSE IF ~ok /\ r.acc = 1 THEN "a value outside the range is accepted"
  ELSE IF ~ok /\ r.built = 1 /\ ~late THEN "a value outside the range is only refused when it is serialised"
  ELSE ""
\* LoRaWAN settings, names (which are text) and tags may be checked as late as when they are turned into octets
Late(toks) == \E i \in 1..Len(toks) : toks[i][1] \in LoRaNames \cup {"app1", "sha1"}
Other(e) == IF e.r.acc = 1 THEN "a value of another kind is accepted" ELSE ""
StructLimit(e) == IF "wrong" \in DOMAIN e THEN Other(e) ELSE Accepts(EncOf(e, WithSamples(e.toks, e.smp)).ok, e.r, Late(e.toks))
ActionLimit(e) == IF "wrong" \in DOMAIN e THEN Other(e) ELSE Accepts(EncAction(e.toks).ok, e.r, Late(e.toks))
TagLimit(e)    == IF "wrong" \in DOMAIN e THEN Other(e) ELSE Accepts(e.tag \in 0..255, e.r, e.how # 1)

(* -------------------------------- frames -------------------------------- *)
Seen(r) == [head |-> r.head, np |-> r.np, tp |-> r.tp, cmd |-> r.cmd, crc |-> r.crc]
FgDecode(e) ==
  LET d == DecFg(e.b) IN
  CASE d.why = "unspec" -> ""
    [] d.why = "short" -> IF e.r.frame = 1 THEN "an incomplete frame is accepted" ELSE IF e.r.exc # "" THEN "an incomplete frame is an error" ELSE ""
    [] d.why = "bad" -> IF e.r.frame = 1 THEN "a frame with unsupported contents is accepted" ELSE ""
    [] OTHER -> IF e.r.exc # "" \/ e.r.frame # 1 THEN "a well-formed frame is refused"
                ELSE IF e.r.odd # "" THEN "frame has unexpected shape"
                ELSE IF FrameDiffers(d.f, Seen(e.r)) # "" THEN "frame differs: " \o FrameDiffers(d.f, Seen(e.r))
                ELSE ""
BgDecode(e) ==
  LET d == Dec(BgLayout, e.b, 0) IN
  IF d.why = "short" THEN (IF e.r.frame = 1 THEN "an incomplete frame is accepted" ELSE IF e.r.exc # "" THEN "an incomplete frame is an error" ELSE "")
  ELSE IF e.r.exc # "" \/ e.r.frame # 1 THEN "a well-formed frame is refused"
  ELSE IF e.r.odd # "" THEN "frame has unexpected shape"
  ELSE IF e.r.head # d.toks THEN "background frame differs"
  ELSE ""

Canon(cmd) == [cmd EXCEPT !.tag = <<>>, !.kind = "none", !.send = 1, !.done = 0, !.err = 0]
NpOf(f, t) == Enc(NpHead, f.np).out \o Enc(TpHead, f.tp).out \o EncCmd(f.cmd, t).out
TpOf(f, t) == Enc(TpHead, f.tp).out \o EncCmd(f.cmd, t).out
FgOut(e, f, t) ==
  LET want == EncFg(f, t) IN
  IF ~want.ok THEN "machinery: request is not a value of the specification"
  ELSE IF e.r.exc # "" THEN "serialising a frame fails"
  ELSE IF e.r.out # want.out THEN "octets of the frame differ from the specification"
  ELSE IF e.r.npout # NpOf(f, t) THEN "octets of the network layer differ from the specification"
  ELSE IF e.r.tpout # TpOf(f, t) THEN "octets of the transport layer differ from the specification"
  ELSE IF Len(want.out) # 1 + Val(f.head, "length") THEN ""   \* e.g. a shorter coding of a length: the frame is no longer parseable
  ELSE IF e.r.exc2 # "" \/ e.r.frame # 1 THEN "serialised frame cannot be parsed"
  ELSE IF e.r.odd # "" THEN "frame has unexpected shape"
  ELSE IF FrameDiffers(f, Seen(e.r)) # "" THEN "round trip changes the frame: " \o FrameDiffers(f, Seen(e.r))
  ELSE ""
FgRound(e) ==
  LET d == DecFg(e.b) IN
  IF d.why # "" \/ d.f.cmd.status # <<>> THEN ""
  ELSE IF e.r.had # 1 THEN "a well-formed frame is refused"
  ELSE FgOut(e, [d.f EXCEPT !.cmd = Canon(@)], FALSE)
FgBuild(e) == FgOut(e, e.f, e.gen = 1)
BgOut(e, toks) ==
  LET want == Enc(BgLayout, toks) IN
  IF ~want.ok THEN "machinery: request is not a value of the specification"
  ELSE IF e.r.exc # "" THEN "serialising a frame fails"
  ELSE IF e.r.out # want.out THEN "octets of the frame differ from the specification"
  ELSE IF e.r.exc2 # "" \/ e.r.frame # 1 THEN "serialised frame cannot be parsed"
  ELSE IF e.r.odd # "" \/ e.r.head # toks THEN "round trip changes the frame"
  ELSE ""
BgRound(e) == LET d == Dec(BgLayout, e.b, 0) IN
  IF d.why # "" THEN "" ELSE IF e.r.had # 1 THEN "a well-formed frame is refused" ELSE BgOut(e, d.toks)
FgLimit(e) == IF "wrong" \in DOMAIN e THEN Other(e) ELSE Accepts(EncFg(e.f, FALSE).ok, e.r, FALSE)
BgLimit(e) == IF "wrong" \in DOMAIN e THEN Other(e) ELSE Accepts(Enc(BgLayout, e.toks).ok, e.r, FALSE)

(* ---------------------------- compressed time --------------------------- *)
\* one line: durations from, from + step, ...; -1 stands for "not compressed"
CtBatch(e) ==
  LET bad == {i \in 1..Len(e.r.out) :
                LET c == Tim!Compress(e.from + (i - 1) * e.step, e.up = 1) IN
                e.r.out[i] # (IF c = Tim!None THEN -1 ELSE Tim!OctetOf(c[1], c[2]))}
  IN IF bad = {} THEN "" ELSE IF e.up = 1 THEN "compression rounding up differs" ELSE "compression rounding down differs"
CtValue(e) ==
  LET v == Tim!Value(e.exp, e.mant)  o == Tim!OctetOf(e.exp, e.mant) IN
  IF e.r.exc # "" THEN "compressed time fails"
  ELSE IF e.r.int # v THEN "integer value differs"
  ELSE IF e.r.dec # v THEN "decompressed value differs"
  ELSE IF e.r.octet # o \/ e.r.out # <<o>> THEN "octet differs"
  ELSE IF e.r.back # <<e.exp, e.mant>> THEN "parsed octet differs"
  ELSE ""

(* ------------------------------ channel text ---------------------------- *)
TextWrite(e) ==
  IF e.r.exc # "" THEN "a channel cannot be written"
  ELSE LET b == Txt!Read(e.r.text, Len(e.ch) = 4) IN
       IF b.why # "" \/ b.ch # e.ch THEN "the text written does not denote the channel"
       ELSE IF e.r.ok # 1 \/ e.r.back # e.ch THEN "the text written is read as another channel"
       ELSE ""
TextRead(e) ==
  LET b == Txt!Read(e.s, e.idx = 1) IN
  CASE b.why = "unspec" -> ""
    [] b.why = "bad" -> IF e.r.ok = 1 THEN "text that is no channel is accepted" ELSE ""
    [] OTHER -> IF e.r.ok # 1 THEN "the text of a channel is refused" ELSE IF e.r.back # b.ch THEN "text is read as another channel" ELSE ""

ModeWrite(e) ==
  IF e.r.exc # "" THEN "a mode cannot be written"
  ELSE IF Txt!ReadMode(e.r.text) # e.v THEN "the text written does not denote the mode"
  ELSE IF e.r.back # e.v THEN "the text written is read as another mode"
  ELSE ""
NameRead(want, e) ==
  IF want = -1 THEN (IF e.r.back # -1 THEN "text that denotes nothing is accepted" ELSE "")
  ELSE IF e.r.back = -1 THEN "text with a meaning is refused"
  ELSE IF e.r.back # want THEN "text is read as something else"
  ELSE ""
PartWrite(e) ==
  IF e.r.exc # "" THEN "a part of a channel cannot be written"
  ELSE IF Txt!ReadPart(e.p, e.r.text) # e.v THEN "the letter written does not denote the value"
  ELSE IF e.r.back # e.v THEN "the letter written is read as something else"
  ELSE ""

(* ------------------------- returned system files ------------------------ *)
Returned(e) ==
  LET w == Recognise(e.fid, e.off, e.data) IN
  IF e.r.exc # "" THEN "returned data cannot be built or parsed"
  ELSE IF e.r.odd # "" THEN "interpretation has unexpected shape"
  ELSE IF e.r.data # e.data \/ e.r.fid # e.fid \/ e.r.off # e.off THEN "the returned data itself is affected"
  ELSE IF w.why # "" THEN ""
  ELSE IF e.r.rec # w.rec THEN (IF w.rec = 1 THEN "content of a system file is not interpreted" ELSE "data is interpreted that is not a system file's content")
  ELSE IF w.rec = 0 THEN ""
  ELSE IF e.r.sid # e.fid \/ e.r.file # w.file THEN "data is taken for another file"
  ELSE IF e.r.toks # w.toks THEN "interpreted content differs"
  ELSE IF e.r.str # 1 THEN "interpreted data cannot be printed"
  ELSE ""

(* ------------------------------- registry ------------------------------- *)
SetOf(s) == {s[i] : i \in 1..Len(s)}
RegistryOf(e) ==
  IF SetOf(e.r.ids) # {<<Name(f), f>> : f \in Files} \cup {<<"RFU_2F", MaxId>>} \/ Len(e.r.ids) # MaxId + 1 THEN "system file numbers differ"
  ELSE IF SetOf(e.r.files) # {<<f, f, Size(f), Layout(f)>> : f \in Files} \/ Len(e.r.files) # Cardinality(Files) THEN "registered files differ"
  ELSE IF e.r.all # [i \in 1..Cardinality(Files) |-> i - 1] THEN "the list of all files differs"
  ELSE ""
\* one file object: content given, empty if only read
SysCommand(e) ==
  LET tag == IF Len(e.r.tag) = 1 THEN e.r.tag ELSE <<0>>
      content == IF e.layout = "" THEN e.content ELSE EncFile(e.layout, e.toks).out
      act == IF e.op = "read" THEN Plain(READ, Off(e.fid, 0) \o <<<<"len", <<e.size>>>>>>)
             ELSE Plain(WRITE, Off(e.fid, 0) \o <<<<"len", <<Len(content)>>>>, <<"data", content>>>>)
      want == EncCmd([EmptyCmd EXCEPT !.tag = tag, !.actions = Fwd(e.fwd) \o act], TRUE)
  IN IF ~want.ok \/ (e.fid \in Files /\ e.size # Size(e.fid)) THEN "machinery: request is not a value of the specification"
     ELSE IF e.r.exc # "" THEN "the command cannot be built"
     ELSE IF e.r.out # want.out THEN "the command does not address the file as specified"
     ELSE ""

(* through JSON and back *)
StructStored(e) ==
  LET want == EncOf(e, e.toks) IN
  IF ~want.ok THEN "machinery: request is not a value of the specification"
  ELSE IF e.r.exc # "" THEN "storing a value fails"
  ELSE IF e.r.out # want.out \/ e.r.again # want.out THEN "storing changes the value"
  ELSE IF e.r.packed # want.out THEN "the restored value has other octets"
  ELSE IF e.n # "ifconf" /\ (e.r.toks # e.toks \/ e.r.toks2 # e.toks) THEN "the restored value differs"
  ELSE IF e.r.same # 1 THEN "enumeration values come back as something else"
  ELSE IF e.r.str # 1 THEN "the restored value is displayed differently"
  ELSE ""
FrameStored(e) ==
  LET d == DecFg(e.b) IN
  IF d.why # "" THEN ""
  ELSE IF e.r.exc # "" THEN "storing a frame fails"
  ELSE IF e.r.again # e.r.out THEN "storing changes the frame"
  ELSE IF e.r.packed # e.r.out THEN "the restored frame has other octets"
  ELSE IF FrameDiffers(d.f, Seen(e.r)) # "" THEN "the restored frame differs: " \o FrameDiffers(d.f, Seen(e.r))
  ELSE IF e.r.same # 1 THEN "enumeration values come back as something else"
  ELSE IF e.r.str # 1 THEN "the restored frame is displayed differently"
  ELSE ""

Verdict(e) ==
  IF "dead" \in DOMAIN e.r THEN "the code does not return"
  ELSE
  CASE e.k = "sdec" -> StructDecode(e)
    [] e.k = "senc" -> StructEncode(e)
    [] e.k = "slim" -> StructLimit(e)
    [] e.k = "alim" -> ActionLimit(e)
    [] e.k = "tlim" -> TagLimit(e)
    [] e.k = "fgdec" -> FgDecode(e)
    [] e.k = "bgdec" -> BgDecode(e)
    [] e.k = "fgrt" -> FgRound(e)
    [] e.k = "bgrt" -> BgRound(e)
    [] e.k = "fgbuild" -> FgBuild(e)
    [] e.k = "bgbuild" -> BgOut(e, e.toks)
    [] e.k = "fglim" -> FgLimit(e)
    [] e.k = "bglim" -> BgLimit(e)
    [] e.k = "ct" -> CtBatch(e)
    [] e.k = "ctv" -> CtValue(e)
    [] e.k = "text" -> TextWrite(e)
    [] e.k = "read" -> TextRead(e)
    [] e.k = "modew" -> ModeWrite(e)
    [] e.k = "moder" -> NameRead(Txt!ReadMode(e.s), e)
    [] e.k = "partw" -> PartWrite(e)
    [] e.k = "partr" -> NameRead(Txt!ReadPart(e.p, e.s), e)
    [] e.k = "ret" -> Returned(e)
    [] e.k = "reg" -> RegistryOf(e)
    [] e.k = "sys" -> SysCommand(e)
    [] e.k = "sjson" -> StructStored(e)
    [] e.k = "fgjson" -> FrameStored(e)

VARIABLE i
Init == i \in (1 - Stride)..0
Next == /\ i + Stride <= N
        /\ i' = i + Stride
        /\ LET v == Verdict(Trace[i']) IN IF v = "" THEN TRUE ELSE PrintT(<<"FAIL", i', v>>)
=============================================================================
