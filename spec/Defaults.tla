------------------------------ MODULE Defaults ------------------------------
(* What an object is of which only the class was given.                      *)
EXTENDS Integers, Sequences
Default == [
  addressee |-> [t |-> "struct", n |-> "addressee", v |-> <<<<"x.idtype", <<1>>>>, <<"x.nls", <<0>>>>, <<"x.ac", <<0>>>>>>],
  chstatus |-> [t |-> "struct", n |-> "chstatus", v |-> <<<<"x.band", <<0>>>>, <<"x.bw", <<1>>>>, <<"x.index", <<0>>>>>>],
  configuration |-> [t |-> "struct", n |-> "configuration", v |-> <<<<"x.qos.stop", <<0>>>>, <<"x.qos.record", <<0>>>>, <<"x.qos.retry", <<0>>>>,
      <<"x.qos.resp", <<0>>>>, <<"x.dorm.exp", <<0>>>>, <<"x.dorm.mant", <<0>>>>, <<"x.addr.idtype", <<1>>>>, <<"x.addr.nls", <<0>>>>, <<"x.addr.ac",
      <<0>>>>>>],
  ct |-> [t |-> "struct", n |-> "ct", v |-> <<<<"x.exp", <<0>>>>, <<"x.mant", <<0>>>>>>],
  dllconfig |-> [t |-> "file", n |-> "dllconfig", v |-> <<<<"ac", <<0>>>>, <<"lq", <<0>>>>, <<"nf", <<0>>>>, <<"rxnf", <<0>>>>, <<"txnf", <<0>>>>>>],
  dllstatus |-> [t |-> "file", n |-> "dllstatus", v |-> <<<<"rxl", <<0>>>>, <<"lb", <<0>>>>, <<"noise", <<0>>>>, <<"ch.band", <<3>>>>, <<"ch.class",
      <<0>>>>, <<"ch.coding", <<2>>>>, <<"index", <<0>>>>, <<"ratio", <<0>>>>, <<"scan", <<0, 0, 0, 0>>>>, <<"scanto", <<0, 0, 0, 0>>>>>>],
  engmode |-> [t |-> "file", n |-> "engmode", v |-> <<<<"mode", <<0>>>>, <<"flags", <<0>>>>, <<"timeout", <<0>>>>, <<"ch.band", <<3>>>>, <<"ch.class",
      <<0>>>>, <<"ch.coding", <<0>>>>, <<"ch.index", <<0>>>>, <<"eirp", <<0>>>>>>],
  factory |-> [t |-> "file", n |-> "factory", v |-> <<<<"gain", <<0>>>>, <<"bwlo", <<0, 0, 40, 228>>>>, <<"bwno", <<0, 1, 51, 54>>>>, <<"bwhi", <<0,
      1, 235, 172>>>>, <<"brlo", <<0, 0, 37, 128>>>>, <<"fdlo", <<0, 0, 18, 192>>>>, <<"brno", <<0, 0, 217, 3>>>>, <<"fdno", <<0, 0, 195, 80>>>>,
      <<"brhi", <<0, 2, 139, 11>>>>, <<"fdhi", <<0, 0, 162, 195>>>>, <<"pslo", <<5>>>>, <<"psno", <<5>>>>, <<"pshi", <<7>>>>, <<"pdlo", <<3>>>>,
      <<"pdno", <<3>>>>, <<"pdhi", <<3>>>>, <<"ptlo", <<15>>>>, <<"ptno", <<10>>>>, <<"pthi", <<10>>>>, <<"rssism", <<2>>>>, <<"rssioff", <<0>>>>,
      <<"lbw", <<0, 1, 232, 72>>>>, <<"lsf", <<9>>>>, <<"gauss", <<2>>>>, <<"paramp", <<40>>>>>>],
  fgctrl |-> [t |-> "struct", n |-> "fgctrl", v |-> <<<<"idtype", <<3>>>>, <<"eirp", <<0>>>>>>],
  len |-> [t |-> "struct", n |-> "len", v |-> <<<<"x", <<0>>>>>>],
  nop |-> [t |-> "act", n |-> "", v |-> <<<<"group", <<0>>>>, <<"resp", <<0>>>>, <<"op", <<0>>>>>>],
  offset |-> [t |-> "struct", n |-> "offset", v |-> <<<<"x.fid", <<0>>>>, <<"x.off", <<0>>>>>>],
  perm |-> [t |-> "struct", n |-> "perm", v |-> <<<<"x.enc", <<0>>>>, <<"x.exe", <<0>>>>, <<"x.ur", <<1>>>>, <<"x.uw", <<1>>>>, <<"x.ux", <<1>>>>,
      <<"x.gr", <<1>>>>, <<"x.gw", <<1>>>>, <<"x.gx", <<1>>>>>>],
  phystatus |-> [t |-> "file", n |-> "phystatus", v |-> <<<<"up", <<0, 0, 0, 0>>>>, <<"rx", <<0, 0, 0, 0>>>>, <<"tx", <<0, 0, 0, 0>>>>, <<"duty",
      <<0>>>>, <<"n", <<0>>>>>>],
  phystatus2s |-> [t |-> "file", n |-> "phystatus", v |-> <<<<"up", <<0, 0, 0, 0>>>>, <<"rx", <<0, 0, 0, 0>>>>, <<"tx", <<0, 0, 0, 0>>>>, <<"duty",
      <<0>>>>, <<"n", <<2>>>>, <<"c1.band", <<3>>>>, <<"c1.bw", <<1>>>>, <<"c1.index", <<7>>>>, <<"c1.nf", <<0>>>>, <<"c2.band", <<0>>>>, <<"c2.bw",
      <<1>>>>, <<"c2.index", <<0>>>>, <<"c2.nf", <<0>>>>>>],
  phystatus3 |-> [t |-> "file", n |-> "phystatus", v |-> <<<<"up", <<0, 0, 0, 0>>>>, <<"rx", <<0, 0, 0, 0>>>>, <<"tx", <<0, 0, 0, 0>>>>, <<"duty",
      <<0>>>>, <<"n", <<3>>>>, <<"c1.band", <<0>>>>, <<"c1.bw", <<1>>>>, <<"c1.index", <<0>>>>, <<"c1.nf", <<0>>>>, <<"c2.band", <<0>>>>, <<"c2.bw",
      <<1>>>>, <<"c2.index", <<0>>>>, <<"c2.nf", <<0>>>>, <<"c3.band", <<0>>>>, <<"c3.bw", <<1>>>>, <<"c3.index", <<0>>>>, <<"c3.nf", <<0>>>>>>],
  qos |-> [t |-> "struct", n |-> "qos", v |-> <<<<"x.stop", <<0>>>>, <<"x.record", <<0>>>>, <<"x.retry", <<0>>>>, <<"x.resp", <<0>>>>>>],
  read |-> [t |-> "act", n |-> "", v |-> <<<<"group", <<0>>>>, <<"resp", <<0>>>>, <<"op", <<1>>>>, <<"o.fid", <<0>>>>, <<"o.off", <<0>>>>, <<"len",
      <<5>>>>>>],
  return |-> [t |-> "act", n |-> "", v |-> <<<<"group", <<0>>>>, <<"resp", <<0>>>>, <<"op", <<32>>>>, <<"o.fid", <<0>>>>, <<"o.off", <<0>>>>, <<"len",
      <<2>>>>, <<"data", <<1, 2>>>>>>],
  returnat |-> [t |-> "act", n |-> "", v |-> <<<<"group", <<0>>>>, <<"resp", <<0>>>>, <<"op", <<32>>>>, <<"o.fid", <<66>>>>, <<"o.off", <<0>>>>,
      <<"len", <<1>>>>, <<"data", <<9>>>>>>],
  rootkey |-> [t |-> "file", n |-> "rootkey", v |-> <<<<"key", <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>>>],
  seckey |-> [t |-> "file", n |-> "seckey", v |-> <<<<"key", <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>>>],
  subband |-> [t |-> "struct", n |-> "subband", v |-> <<<<"x.start", <<0>>>>, <<"x.end", <<0>>>>, <<"x.eirp", <<0>>>>, <<"x.cca", <<86>>>>,
      <<"x.duty", <<255>>>>>>],
  subprofile |-> [t |-> "struct", n |-> "subprofile", v |-> <<<<"x.bitmap", <<0>>>>, <<"x.period.exp", <<0>>>>, <<"x.period.mant", <<0>>>>>>],
  uid |-> [t |-> "file", n |-> "uid", v |-> <<<<"uid", <<0, 0, 0, 0, 0, 0, 0, 0>>>>>>],
  userkey |-> [t |-> "file", n |-> "userkey", v |-> <<<<"key", <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>>>],
  vid |-> [t |-> "file", n |-> "vid", v |-> <<<<"vid", <<65535>>>>, <<"control", <<0>>>>>>],
  write |-> [t |-> "act", n |-> "", v |-> <<<<"group", <<0>>>>, <<"resp", <<0>>>>, <<"op", <<4>>>>, <<"o.fid", <<0>>>>, <<"o.off", <<0>>>>, <<"len",
      <<0>>>>, <<"data", <<>>>>>>]
]
=============================================================================
