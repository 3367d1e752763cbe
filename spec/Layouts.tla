------------------------------ MODULE Layouts ------------------------------
(* Wire layouts of the building blocks: compressed time, addressee, QoS,    *)
(* interface configurations, channel descriptors, file headers.             *)
EXTENDS Wire

CT(p) == <<U(p \o ".exp", 3), U(p \o ".mant", 5)>>

NBID == 0  NOID == 1  UID == 2  VID == 3
Addressee(p) ==
  <<Rfu(2), U(p \o ".idtype", 2), Fld(p \o ".nls", 4, 0..7), U8(p \o ".ac"),
    When(p \o ".idtype", {NBID}, CT(p \o ".nbid")),
    When(p \o ".idtype", {UID}, <<Wide(p \o ".id", 8)>>),
    When(p \o ".idtype", {VID}, <<Wide(p \o ".id", 2)>>)>>

QoS(p) == <<Bit(p \o ".stop"), Bit(p \o ".record"), Fld(p \o ".retry", 3, {0}),
            Fld(p \o ".resp", 3, {0, 1, 2, 4, 5, 6})>>

Configuration(p) == QoS(p \o ".qos") \o CT(p \o ".dorm") \o Addressee(p \o ".addr")

LoraCommon(p) == <<Rfu(5), Bit(p \o ".adr"), Bit(p \o ".ack"), Rfu(1), U8(p \o ".port"), U8(p \o ".dr")>>
LoraABP(p)  == LoraCommon(p) \o <<Wide(p \o ".devaddr", 4), Wide(p \o ".netid", 4)>>
LoraOTAA(p) == LoraCommon(p)

IfHost == 0  IfSerial == 1  IfAbp == 2  IfOtaa == 3  IfD7 == 215

(* interface id octet followed by the configuration of that interface       *)
InterfaceConfig(p, ids) ==
  <<Fld(p \o ".iface", 8, ids),
    When(p \o ".iface", {IfD7}, Configuration(p \o ".d7")),
    When(p \o ".iface", {IfAbp}, LoraABP(p \o ".abp")),
    When(p \o ".iface", {IfOtaa}, LoraOTAA(p \o ".otaa"))>>

ChannelHeader(p) == <<Rfu(1), Fld(p \o ".band", 3, {0, 2, 3, 4}), U(p \o ".class", 2), U(p \o ".coding", 2)>>
ChannelID(p)     == ChannelHeader(p) \o <<U(p \o ".index", 16)>>
\* 3 bits band, 1 bit bandwidth, 1 RFU, 11 bits index
ChannelStatusId(p) == <<Fld(p \o ".band", 3, {0, 2, 3, 4}), U(p \o ".bw", 1), Rfu(1), Fld(p \o ".index", 11, 0..1039)>>

SubBand(p) == <<U(p \o ".start", 16), U(p \o ".end", 16), S8(p \o ".eirp"), U8(p \o ".cca"), U8(p \o ".duty")>>
SubProfile(p) == <<U8(p \o ".bitmap")>> \o CT(p \o ".period")

Permissions(p) == <<Bit(p \o ".enc"), Bit(p \o ".exe"), Bit(p \o ".ur"), Bit(p \o ".uw"), Bit(p \o ".ux"),
                    Bit(p \o ".gr"), Bit(p \o ".gw"), Bit(p \o ".gx")>>
Properties(p)  == <<Bit(p \o ".act"), Fld(p \o ".cond", 3, 0..3), Rfu(2), U(p \o ".storage", 2)>>
FileHeader(p)  == Permissions(p \o ".perm") \o Properties(p \o ".prop")
                  \o <<U8(p \o ".alpfid"), U8(p \o ".ifid"), Wide(p \o ".size", 4), Wide(p \o ".alloc", 4)>>

SpStatus(p) == ChannelID(p \o ".ch")
               \o <<U8(p \o ".rxlevel"), U8(p \o ".lb"), U8(p \o ".trl"),
                    Bit(p \o ".nlsf"), Bit(p \o ".missed"), Bit(p \o ".retry"), Bit(p \o ".ucast"), Rfu(4),
                    U8(p \o ".fifo"), U8(p \o ".seq")>>
               \o CT(p \o ".respto") \o Addressee(p \o ".addr")

Offset(p) == <<U8(p \o ".fid"), AlpLen(p \o ".off")>>
=============================================================================
