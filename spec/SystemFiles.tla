---------------------------- MODULE SystemFiles ----------------------------
(* Contents of the system files, the registry, and the stand-alone          *)
(* structures that have a parse/serialise pair of their own.                *)
EXTENDS Layouts

AccessProfile(p) ==
  ChannelHeader(p \o ".ch")
  \o FlattenSeq([i \in 1..4 |-> SubProfile(p \o ".sp" \o ToString(i))])
  \o FlattenSeq([i \in 1..8 |-> SubBand(p \o ".sb" \o ToString(i))])

PhyStatusEntry(i) == ChannelStatusId("c" \o ToString(i)) \o <<U8("c" \o ToString(i) \o ".nf")>>

FileLayout == [
  uid       |-> <<Wide("uid", 8)>>,
  factory   |-> <<S8("gain"), Wide("bwlo", 4), Wide("bwno", 4), Wide("bwhi", 4),
                  Wide("brlo", 4), Wide("fdlo", 4), Wide("brno", 4), Wide("fdno", 4), Wide("brhi", 4), Wide("fdhi", 4),
                  U8("pslo"), U8("psno"), U8("pshi"), U8("pdlo"), U8("pdno"), U8("pdhi"), U8("ptlo"), U8("ptno"), U8("pthi"),
                  U8("rssism"), [k |-> "s", n |-> "rssioff", vals |-> -126..125],
                  Wide("lbw", 4), Fld("lsf", 8, 6..12), Fld("gauss", 8, 0..3), U("paramp", 16)>>,
  firmware  |-> <<U8("major"), U8("minor"), U8("fmajor"), U8("fminor")>>
                \o [i \in 1..6 |-> Fld("app" \o ToString(i), 8, 0..127)]
                \o [i \in 1..7 |-> Fld("sha" \o ToString(i), 8, 0..127)],
  engmode   |-> <<Fld("mode", 8, 0..4), U8("flags"), U8("timeout")>> \o ChannelID("ch") \o <<S8("eirp")>>,
  vid       |-> <<U("vid", 16), U8("control")>>,
  phystatus |-> <<Wide("up", 4), Wide("rx", 4), Wide("tx", 4), Fld("duty", 16, 0..1000), U8("n"), Rep("n", PhyStatusEntry, 255)>>,
  dllconfig |-> <<U8("ac"), Rfu(8), Rfu(8), U8("lq"), U8("nf"), U8("rxnf"), U8("txnf")>>,
  dllstatus |-> <<U8("rxl"), U8("lb"), U8("noise")>> \o ChannelHeader("ch")
                \o <<U("index", 16), U("ratio", 16), Wide("scan", 4), Wide("scanto", 4)>>,
  seckey    |-> <<LEWide("key", 16)>>,
  rootkey   |-> <<LEWide("key", 16)>> \o [i \in 1..24 |-> Rfu(8)],
  userkey   |-> <<LEWide("key", 16)>> \o [i \in 1..24 |-> Rfu(8)],
  access    |-> AccessProfile("ap")
]

(* padding octets written after the content but not needed to read it *)
Padding == [f \in DOMAIN FileLayout |-> IF f = "engmode" THEN <<0, 0>> ELSE <<>>]
EncFile(f, toks) == LET r == Enc(FileLayout[f], toks) IN E(r.ok, r.out \o Padding[f])

StructLayout == [
  ct |-> CT("x"), addressee |-> Addressee("x"), qos |-> QoS("x"), configuration |-> Configuration("x"),
  chheader |-> ChannelHeader("x"), chid |-> ChannelID("x"), chstatus |-> ChannelStatusId("x"),
  subband |-> SubBand("x"), subprofile |-> SubProfile("x"), accessprofile |-> AccessProfile("ap"),
  fileheader |-> FileHeader("x"), perm |-> Permissions("x"), prop |-> Properties("x"),
  spstatus |-> SpStatus("x"), len |-> <<AlpLen("x")>>, offset |-> Offset("x"),
  abp |-> LoraABP("x"), otaa |-> LoraOTAA("x"),
  ifconf |-> InterfaceConfig("f", {IfAbp, IfOtaa, IfD7}),
  fgctrl |-> <<U("idtype", 2), U("eirp", 6)>>, bgctrl |-> <<U("idtype", 2), U("tag", 6)>>,
  npctrl |-> <<Bit("noorigin"), Bit("hop"), U("oidtype", 2), Fld("nls", 4, 0..7)>>,
  tpctrl |-> <<Bit("start"), Rfu(1), Bit("tl?"), Bit("te?"), Bit("ackreq"), Bit("acknv"), Bit("ackrec"), Bit("agc?")>>
]
=============================================================================
