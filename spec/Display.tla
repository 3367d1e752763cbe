------------------------------ MODULE Display ------------------------------
(* Texts and dictionaries of objects, and their comparison.  What a text    *)
(* looks like is not specified; specified is which values it shows: objects *)
(* that differ in a shown field have different texts, equal objects equal   *)
(* ones, and a value that stands behind one of the labels below is the      *)
(* value of that field.                                                     *)
EXTENDS Dll, SystemFiles

(* Fields a text leaves out: the permissions of a file, the group and       *)
(* response flags of an action, the operand of a break query, the network   *)
(* layer security of an addressee, the control octets of the data link      *)
(* and network layers (these have no text of their own).                    *)
PermBits == {"enc", "exe", "ur", "uw", "ux", "gr", "gw", "gx"}
PermsIn(p) == {p \o b : b \in PermBits}
Silent == PermsIn("x.") \union PermsIn("x.perm.") \union PermsIn("h.perm.")
          \union {"group", "resp", "q.signed", "q.comp", "q.fid", "q.off", "q.clen", "q.cval", "q.mask", "q.mode", "q.maskp", "q.code"}
          \union {"x.nls", "a.nls", "x.addr.nls", "s.addr.nls"}
Textless == {"fgctrl", "bgctrl", "npctrl", "tpctrl", "perm"}

(* Dictionaries of objects of one class hold the same fields, except that a *)
(* command that ends an execution also says how.                            *)
Growing == {":Command", "/d7anp_frame/d7atp_frame/alp_command:Command"}

(* text forms of values *)
HexDigit == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
Nibbles(o) == [i \in 1..(2 * Len(o)) |-> LET b == o[(i + 1) \div 2] IN IF i % 2 = 1 THEN b \div 16 ELSE b % 16]
RECURSIVE HexFrom(_, _)
HexFrom(d, i) == IF i > Len(d) THEN "" ELSE HexDigit[d[i] + 1] \o HexFrom(d, i + 1)
RECURSIVE FirstDigit(_, _)
FirstDigit(d, i) == IF i = Len(d) \/ d[i] # 0 THEN i ELSE FirstDigit(d, i + 1)
AsHex(limbs) == LET o == IF Len(limbs) = 1 THEN <<(limbs[1] \div 65536) % 256, (limbs[1] \div 256) % 256, limbs[1] % 256>> ELSE limbs
                    d == Nibbles(o) IN "0x" \o HexFrom(d, FirstDigit(d, 1))
RECURSIVE NumFrom(_, _, _)
NumFrom(l, i, acc) == IF i > Len(l) THEN acc ELSE NumFrom(l, i + 1, acc * 256 + l[i])
Small(limbs) == Len(limbs) = 1 \/ \A i \in 1..Len(limbs) : i > Len(limbs) - 3 \/ limbs[i] = 0
\* the texts a value may have; {} if that is not decided here
TextsOf(how, limbs) ==
  CASE how = "hex"  -> {AsHex(limbs), AsHex(limbs) \o "L"}
    [] how = "bool" -> {IF limbs[1] = 1 THEN "True" ELSE "False", ToString(limbs[1])}
    [] OTHER -> IF Small(limbs) THEN {ToString(NumFrom(limbs, 1, 0))} ELSE {}

(* label, field, how *)
Dec3(l, f) == <<l, f, "dec">>
LabelsOf == [
  subband |-> <<Dec3("channel_index_start=", "x.start"), Dec3("channel_index_end=", "x.end"), Dec3("eirp=", "x.eirp"), Dec3("cca=", "x.cca"), Dec3("duty=", "x.duty")>>,
  addressee |-> <<Dec3("ac=", "x.ac")>>,
  ct |-> <<Dec3("exp=", "x.exp")>>,
  chstatus |-> <<Dec3("channel_index=", "x.index")>>,
  prop |-> <<<<"act_enabled=", "x.act", "bool">>>>,
  fileheader |-> <<Dec3("alp_command_file_id=", "x.alpfid"), Dec3("interface_file_id=", "x.ifid"), Dec3("file_size=", "x.size"), Dec3("allocated_size=", "x.alloc")>>,
  offset |-> <<Dec3("file-id=", "x.fid"), Dec3("offset=", "x.off")>>,
  spstatus |-> <<<<"unicast=", "x.ucast", "bool">>, <<"nls=", "x.nlsf", "bool">>, <<"retry=", "x.retry", "bool">>, <<"missed=", "x.missed", "bool">>,
                 Dec3("fifo_token=", "x.fifo"), Dec3("rx_level=", "x.rxlevel"), Dec3("seq_nr=", "x.seq"), Dec3("target_rx_level=", "x.trl"),
                 Dec3("link_budget=", "x.lb"), Dec3("ac=", "x.addr.ac")>>,
  factory |-> <<Dec3("gain=", "gain"), Dec3("rx_bw_low_rate=", "bwlo"), Dec3("rx_bw_normal_rate=", "bwno"), Dec3("rx_bw_high_rate=", "bwhi"),
                Dec3("low rate=", "brlo"), Dec3("normal rate=", "brno"), Dec3("high rate=", "brhi"), Dec3("preamble sizes ", "pslo"),
                Dec3("preamble detector size ", "pdlo"), Dec3("with tol ", "ptlo"), Dec3("rssi smoothing ", "rssism"), Dec3("with offset ", "rssioff"),
                Dec3("lora sf set to ", "lsf"), Dec3("bw to ", "lbw"), Dec3("gaussian set to ", "gauss"), Dec3("paramp to ", "paramp")>>,
  engmode |-> <<<<"flags=", "flags", "hex">>, Dec3("timeout=", "timeout"), Dec3("eirp=", "eirp")>>,
  vid |-> <<<<"vid=", "vid", "hex">>, <<"control=", "control", "hex">>>>,
  uid |-> <<<<"uid=", "uid", "hex">>>>,
  phystatus |-> <<Dec3("up_time=", "up"), Dec3("rx_time=", "rx"), Dec3("tx_time=", "tx"), Dec3("tx_duty_cycle=", "duty"), Dec3("channel_status_list_length=", "n")>>,
  dllconfig |-> <<Dec3("active_access_class=", "ac"), Dec3("lq_filter=", "lq"), Dec3("nf_ctrl=", "nf"), Dec3("rx_nf_method_parameter=", "rxnf"), Dec3("tx_nf_method_parameter=", "txnf")>>,
  dllstatus |-> <<Dec3("last_rx_packet_level=", "rxl"), Dec3("last_rx_packet_link_budget=", "lb"), Dec3("noise_floor=", "noise"),
                  Dec3("scan_timeout_ratio=", "ratio"), Dec3("scan_count=", "scan"), Dec3("scan_timeout_count=", "scanto")>>,
  act |-> <<Dec3("length=", "len"), Dec3("offset=", "o.off"), Dec3("alp_command_file_id=", "h.alpfid"), Dec3("interface_file_id=", "h.ifid"),
            Dec3("file_size=", "h.size"), Dec3("allocated_size=", "h.alloc"), Dec3("interface-file-id=", "ifile"), Dec3("ac=", "a.ac")>>
]
LabelKey(t, n) == IF t = "act" THEN "act" ELSE n
Labels(t, n) == IF LabelKey(t, n) \in DOMAIN LabelsOf THEN LabelsOf[LabelKey(t, n)] ELSE <<>>
=============================================================================
