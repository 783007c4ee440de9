------------------------------- MODULE TelId -------------------------------
(* Telescope numbers in object types and object ids (C27).

   Telescope events and tracking positions carry the number of the telescope in
   their type; many objects pack it, with other things, into the bits of their id.
   A behaviour is a file of a few objects and what has to be found in them.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Family,    \* "types" | "tel" | "bits" | "words" | "mismatch" | "decimal"
          Sim

VARIABLES objs, phase
vars == <<objs, phase>>

(* --------------------------- numbers in the type --------------------------- *)
MaxTel == 999
TypeOf(base, tel) == base + (tel % 100) + 1000 * (tel \div 100)
TelOf(base, t) == 100 * ((t - base) \div 1000) + ((t - base) % 1000)
InFamily(base, t) == t >= base /\ (t - base) % 1000 < 100 /\ (t - base) \div 1000 <= 9
ASSUME \A tel \in 0..MaxTel : \A b \in {2100, 2200} : InFamily(b, TypeOf(b, tel)) /\ TelOf(b, TypeOf(b, tel)) = tel
ASSUME Cardinality({TypeOf(2100, t) : t \in 0..MaxTel} \cup {TypeOf(2200, t) : t \in 0..MaxTel}) = 2 * (MaxTel + 1)

Registered == [t \in {70, 71, 72, 75, 2000, 2001, 2002, 2003, 2004, 2005, 2006, 2007, 2008, 2009, 2010, 2011, 2012, 2013, 2014, 2015, 2016, 2017, 2020, 1215, 2021, 2022, 2023, 2024, 2025,
                      2026, 2027, 2028, 2029, 2030, 2031, 2032, 2033, 2034, 1200, 1201, 1202, 1203, 1204, 1205, 1206, 1207, 1208, 1209, 1210, 1211, 1212, 1213, 1214, 1216, 100} |->
  CASE t = 70 -> "History" [] t = 71 -> "HistoryCommandLine" [] t = 72 -> "HistoryConfig" [] t = 75 -> "HistoryMeta"
    [] t = 2000 -> "RunHeader" [] t = 2001 -> "MCRunHeader" [] t = 2002 -> "CameraSettings" [] t = 2003 -> "CameraOrganization"
    [] t = 2004 -> "PixelSettings" [] t = 2005 -> "DisabledPixels" [] t = 2006 -> "CameraSoftwareSettings" [] t = 2007 -> "PointingCorrection"
    [] t = 2008 -> "DriveSettings" [] t = 2009 -> "TriggerInformation" [] t = 2010 -> "ArrayEvent" [] t = 2011 -> "TelescopeEventHeader"
    [] t = 2012 -> "ADCSums" [] t = 2013 -> "ADCSamples" [] t = 2014 -> "ImageParameters" [] t = 2015 -> "StereoReconstruction"
    [] t = 2016 -> "PixelTiming" [] t = 2017 -> "PixelCalibration" [] t = 2020 -> "MCShower" [] t = 1215 -> "MCExtraParams" [] t = 2021 -> "MCEvent"
    [] t = 2022 -> "CameraMonitoring" [] t = 2023 -> "LaserCalibration" [] t = 2024 -> "RunStatistics" [] t = 2025 -> "MCRunStatistics"
    [] t = 2026 -> "MCPhotoelectronSum" [] t = 2027 -> "PixelList" [] t = 2028 -> "CalibrationEvent" [] t = 2029 -> "AuxiliaryDigitalTraces"
    [] t = 2030 -> "AuxiliaryAnalogTraces" [] t = 2031 -> "FSPhot" [] t = 2032 -> "PixelTriggerTimes" [] t = 2033 -> "PixelMonitoring"
    [] t = 2034 -> "CalibrationPhotoelectrons"
    [] t = 1200 -> "RunHeader" [] t = 1201 -> "TelescopeDefinition" [] t = 1202 -> "EventHeader" [] t = 1203 -> "ArrayOffsets" [] t = 1204 -> "TelescopeData"
    [] t = 1205 -> "Photons" [] t = 1208 -> "PhotoElectrons" [] t = 1209 -> "EventEnd" [] t = 1210 -> "RunEnd" [] t = 1211 -> "Longitudinal"
    [] t = 1212 -> "InputCard" [] t = 1206 -> "CameraLayout" [] t = 1207 -> "TriggerTime" [] t = 1213 -> "TelescopeArrayHead" [] t = 1214 -> "TelescopeArrayEnd" [] t = 1216 -> "AtmosphericProfile" [] t = 100 -> "Histograms"]
ASSUME \A t \in DOMAIN Registered : ~InFamily(2100, t) /\ ~InFamily(2200, t)
\* class of an object of type t; "-": any but those of the two families
Class(t) == IF InFamily(2100, t) THEN "TrackingPosition" ELSE IF InFamily(2200, t) THEN "TelescopeEvent"
            ELSE IF t \in DOMAIN Registered THEN Registered[t] ELSE "-"

(* --------------------------- numbers in the id ----------------------------- *)
\* an id is a set of bits (0..31)
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864, 134217728, 268435456, 536870912, 1073741824>>
Bit(n, b) == (n \div P2[b + 1]) % 2 = 1
RECURSIVE Sum(_, _, _)
Sum(bits, s, i) == IF i > Len(s) THEN 0 ELSE (IF s[i] \in bits THEN P2[i] ELSE 0) + Sum(bits, s, i + 1)
\* number made of the bits at the positions s[1] (lowest), s[2], ...
Field(bits, s) == Sum(bits, s, 1)
Bits(a, n) == [i \in 1..n |-> a + i - 1]
Split14 == Bits(0, 8) \o Bits(24, 6)
TelBits(t, v) == CASE t = 2012 /\ v <= 1 -> Bits(25, 5)
                   [] t = 2012 /\ v > 1 -> Bits(12, 16)
                   [] t = 2013 -> Bits(12, 16)
                   [] t \in {2014, 2022, 2100} -> Split14
\* bits of an object of family 2100 for a telescope
TrackBits(tel) == {b \in 0..7 : Bit(tel, b)} \cup {16 + b : b \in {c \in 8..13 : Bit(tel, c)}}
ASSUME \A tel \in 0..MaxTel : Field(TrackBits(tel), Split14) = tel
Spare2100 == (8..23) \cup {30, 31}       \* bits 8 and 9: raw and corrected angles

Split(bits) == <<Field(bits, Bits(0, 16)), Field(bits, Bits(16, 16))>>
\* an object: type, version, id (two 16 bit halves), expected class and attributes; err: it is refused
Ob(t, v, bits, attrs) == [t |-> t, v |-> v, id |-> Split(bits), c |-> Class(t), a |-> attrs, err |-> FALSE]
A(k, v) == <<k, v>>

TrackOb(tel, extra) == Ob(TypeOf(2100, tel), 0, TrackBits(tel) \cup extra, <<A("telescope_id", tel), A("has_raw", IF 8 \in extra THEN 1 ELSE 0), A("has_cor", IF 9 \in extra THEN 1 ELSE 0)>>)
EventOb(tel, bits) == Ob(TypeOf(2200, tel), 0, bits, <<A("telescope_id", tel)>>)
PackOb(t, v, bits) == Ob(t, v, bits, <<A("telescope_id", Field(bits, TelBits(t, v)))>>)
Packed == {<<2012, 0>>, <<2012, 1>>, <<2012, 2>>, <<2012, 3>>, <<2013, 0>>, <<2013, 3>>, <<2014, 5>>, <<2014, 6>>, <<2022, 0>>, <<2022, 1>>}
\* 0..31 with bit 31 as sign: type, event, ... numbers which are the id itself
WholeId == {2002, 2003, 2004, 2005, 2006, 2007, 2008, 2011, 2016, 2023, 2032, 2033}

DecOb(t, v, hi, lo) == LET m == IF t = 2027 THEN 1000000 ELSE 1000 IN
  [t |-> t, v |-> v, id |-> <<(hi * m + lo) % 65536, (hi * m + lo) \div 65536>>, c |-> Class(t),
   a |-> <<A("telescope_id", lo), A(IF t = 2027 THEN "code" ELSE "array_id", hi)>>, err |-> FALSE]

\* one of the 14 bits of the number is different
Flip(a, k) == IF (a \div 2 ^ k) % 2 = 1 THEN a - 2 ^ k ELSE a + 2 ^ k
Some(S) == RandomElement({x \in S : phase # "x"})
RandBits == {b \in 0..31 : Some({0, 1}) = 1}
File ==
  CASE Family = "types" -> {[i \in 1..256 |-> LET t == 256 * b + i - 1 IN
                               IF InFamily(2100, t) THEN TrackOb(TelOf(2100, t), {}) ELSE IF InFamily(2200, t) THEN EventOb(TelOf(2200, t), {}) ELSE Ob(t, 0, {}, <<>>)] : b \in 0..255}
    [] Family = "tel" -> {[i \in 1..100 |-> LET tel == 100 * h + i - 1 IN IF k = 0 THEN EventOb(tel, x) ELSE TrackOb(tel, x \cap Spare2100)]
                             : h \in 0..9, k \in 0..1, x \in {{}, {8}, {9}, {8, 9}, {10}, {15}, {16}, {23}, {30}, {31}, Spare2100, 0..31, {8, 9, 30, 31}}}
    [] Family = "bits" -> {<<PackOb(p[1], p[2], x), PackOb(p[1], p[2], (0..31) \ x)>> : p \in Packed, x \in {{a, b} : a, b \in 0..31} \cup {{}}}
    [] Family = "whole" -> {<<[Ob(t, 0, x, <<>>) EXCEPT !.a = <<A("telescope_id=id", 0)>>]>> : t \in WholeId, x \in {{a} : a \in 0..31} \cup {{}, 0..31, 0..30, {0, 8}}}
    [] Family = "decimal" -> {<<DecOb(2027, 1, hi, lo)>> : hi \in {0, 1, 2, 7, 999, 2146}, lo \in {0, 1, 255, 256, 999, 1000, 65535, 65536, 999999}}
                              \cup {<<DecOb(t, 1, hi, lo)>> : t \in {1205, 1208}, hi \in {0, 1, 2, 19, 255, 999, 1000, 65535, 2147482}, lo \in {0, 1, 255, 256, 500, 999}}
    [] Family = "mismatch" -> {<<[Ob(TypeOf(2100, a), 0, TrackBits(Flip(a, k)) \cup x, <<>>) EXCEPT !.err = TRUE]>> : a \in {0, 5, 100, 199, 256, 511, 999}, k \in 0..13, x \in {{8}, {9}}}
                               \cup {<<[Ob(TypeOf(2100, a), 0, TrackBits(b) \cup x, <<>>) EXCEPT !.err = (a # b)]>> : a, b \in {0, 1, 5, 99, 100, 101, 199, 200, 255, 256, 257, 355, 511, 512, 768, 998, 999}, x \in {{8}, {8, 9}, {30}}}
    [] Family = "words" -> {<<>>}

Init == objs = <<>> /\ phase = "start"
Pick == /\ phase = "start" /\ Family # "words" /\ objs' \in File /\ phase' = "end"
\* random ids
PickSim == /\ phase = "start" /\ Family = "words" /\ phase' = "end"
           /\ objs' = [i \in 1..20 |->
                LET x == RandBits
                    k == Some(1..4)
                    p == Some(Packed)
                    tel == Some(0..MaxTel) IN
                IF k <= 2 THEN PackOb(p[1], p[2], x) ELSE IF k = 3 THEN EventOb(tel, x) ELSE TrackOb(tel, x \cap Spare2100)]
Next == Pick \/ PickSim

Inv == \A i \in DOMAIN objs : /\ objs[i].id[1] \in 0..65535 /\ objs[i].id[2] \in 0..65535
                              /\ objs[i].c = "TrackingPosition" => InFamily(2100, objs[i].t)
Export == phase = "end" => CSVWrite("%1$s", <<ToJson([objs |-> objs])>>, IOEnv.OUT)
=============================================================================
