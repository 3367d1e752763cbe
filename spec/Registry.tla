------------------------------ MODULE Registry ------------------------------
(* The system files: numbers, sizes, which of them have content that can be *)
(* interpreted, and when returned data is taken for that content.           *)
EXTENDS SystemFiles

\* number, name, layout ("" if the content is not interpreted), size in octets
Table == <<
  <<"UID", "uid", 8>>, <<"FACTORY_SETTINGS", "factory", 56>>, <<"FIRMWARE_VERSION", "firmware", 17>>, <<"DEVICE_CAPACITY", "", 19>>,
  <<"DEVICE_STATUS", "", 9>>, <<"ENGINEERING_MODE", "engmode", 9>>, <<"VID", "vid", 3>>, <<"RFU_07", "", 0>>,
  <<"PHY_CONFIG", "", 9>>, <<"PHY_STATUS", "phystatus", 45>>, <<"DLL_CONFIG", "dllconfig", 7>>, <<"DLL_STATUS", "dllstatus", 16>>,
  <<"NWL_ROUTING", "", 1>>, <<"NWL_SECURITY", "", 5>>, <<"NWL_SECURITY_KEY", "seckey", 16>>, <<"NWL_SSR", "", 4>>,
  <<"NWL_STATUS", "", 20>>, <<"TRL_STATUS", "", 1>>, <<"SEL_CONFIG", "", 6>>, <<"FOF_STATUS", "", 10>>,
  <<"RFU_14", "", 0>>, <<"RFU_15", "", 0>>, <<"RFU_16", "", 0>>, <<"LOCATION_DATA", "", 1>>,
  <<"ALP_ROOT_AUTHENTICATION_KEY", "rootkey", 40>>, <<"ALP_USER_AUTHENTICATION_KEY", "userkey", 40>>,
  <<"D7AALP_RFU_1A", "", 0>>, <<"D7AALP_RFU_1B", "", 0>>, <<"D7AALP_RFU_1C", "", 0>>, <<"D7AALP_RFU_1D", "", 0>>,
  <<"D7AALP_RFU_1E", "", 0>>, <<"D7AALP_RFU_1F", "", 0>>,
  <<"ACCESS_PROFILE_0", "access", 65>>, <<"ACCESS_PROFILE_1", "access", 65>>, <<"ACCESS_PROFILE_2", "access", 65>>,
  <<"ACCESS_PROFILE_3", "access", 65>>, <<"ACCESS_PROFILE_4", "access", 65>>, <<"ACCESS_PROFILE_5", "access", 65>>,
  <<"ACCESS_PROFILE_6", "access", 65>>, <<"ACCESS_PROFILE_7", "access", 65>>, <<"ACCESS_PROFILE_8", "access", 65>>,
  <<"ACCESS_PROFILE_9", "access", 65>>, <<"ACCESS_PROFILE_10", "access", 65>>, <<"ACCESS_PROFILE_11", "access", 65>>,
  <<"ACCESS_PROFILE_12", "access", 65>>, <<"ACCESS_PROFILE_13", "access", 65>>, <<"ACCESS_PROFILE_14", "access", 65>> >>
Files == 0..(Len(Table) - 1)
Name(f)   == Table[f + 1][1]
Layout(f) == Table[f + 1][2]
Size(f)   == Table[f + 1][3]
MaxId == 47        \* RFU_2F has a number but no file

FixedSize == {f \in DOMAIN FileLayout : f # "phystatus"}

(* Data returned from file f starting at offset off.  An engineering mode   *)
(* file without its two padding octets is not specified.                    *)
NotRecognised == [why |-> "", rec |-> 0, file |-> "", toks |-> <<>>]
Recognise(f, off, data) ==
  IF f \notin Files THEN NotRecognised
  ELSE IF Layout(f) = "" \/ off # 0 \/ Len(data) > Size(f) THEN NotRecognised
  ELSE LET d == Dec(FileLayout[Layout(f)], data, 0) IN
       IF d.why # "" THEN NotRecognised
       ELSE IF Len(data) < (d.pos \div 8) + Len(Padding[Layout(f)]) THEN [NotRecognised EXCEPT !.why = "unspec"]
       ELSE [why |-> "", rec |-> 1, file |-> Layout(f), toks |-> d.toks]
=============================================================================
