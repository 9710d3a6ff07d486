------------------------------ MODULE ZwCodec ------------------------------
(***************************************************************************)
(* What the bytes of a frame mean: the decoding of reports and controller  *)
(* answers, and the encoding of commands.                                  *)
(*                                                                         *)
(* A decoded value is [t |-> kind, v |-> <<integers>>, s |-> <<strings>>]. *)
(* Decimal numbers are pairs m, p meaning m / 10^p with p minimal.         *)
(***************************************************************************)
EXTENDS ZwBytes, TLC

FnDiscover == 2
FnReport   == 4
FnSend     == 19
FnInfo     == 65

CCSwitchBinary     == 37
CCSwitchMultilevel == 38
CCSensorMultilevel == 49
CCMultiInstance    == 96
CCAlarm            == 113
CCManufacturer     == 114
CCWakeUp           == 132

Bit(b, bit) == IF HasBit(b, bit) THEN 1 ELSE 0
Bool(x) == IF x THEN 1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b

Err == [ok |-> FALSE, t |-> "", v |-> <<>>, s |-> <<>>]
Val(t, v, s) == [ok |-> TRUE, t |-> t, v |-> v, s |-> s]

HexDigit == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexByte(b) == HexDigit[(b \div 16) + 1] \o HexDigit[(b % 16) + 1]
Hex16(hi, lo) == HexByte(hi) \o HexByte(lo)

RECURSIVE Normal(_, _)
Normal(m, p) == IF p > 0 /\ m % 10 = 0 THEN Normal(m \div 10, p - 1) ELSE <<m, p>>

Signed8(b) == IF b >= 128 THEN b - 256 ELSE b

(* ---- sensor types: name, and unit by scale 0..3 *)
SensorName ==
    <<"Temperature", "General", "Luminance", "Power", "RelativeHumidity", "Velocity", "Direction",
      "AtmosphericPressure", "BarometricPressure", "SolarRadiation", "DewPoint", "RainRate", "TideLevel",
      "Weight", "Voltage", "Current", "CO2", "AirFlow", "TankCapacity", "Distance", "AnglePosition",
      "Rotation", "WaterTemperature", "SoilTemperature", "SeismicIntensity", "SeismicMagnitude",
      "Ultraviolet", "ElectricalResistivity", "ElectricalConductivity", "Loudness", "Moisture">>
SensorUnit ==
    <<  <<"C", "F", "", "">>, <<"%", "", "", "">>, <<"%", "lux", "", "">>, <<"W", "BTU/h", "", "">>,
        <<"%", "", "", "">>, <<"m/s", "mph", "", "">>, <<"", "", "", "">>, <<"kPa", "inHg", "", "">>,
        <<"kPa", "inHg", "", "">>, <<"W/m2", "W/m2", "W/m2", "W/m2">>, <<"C", "F", "", "">>,
        <<"mm/h", "in/h", "", "">>, <<"m", "ft", "", "">>, <<"kg", "lb", "", "">>, <<"V", "mV", "", "">>,
        <<"A", "mA", "", "">>, <<"ppm", "ppm", "ppm", "ppm">>, <<"m3/h", "cfm", "", "">>,
        <<"l", "cbm", "gal", "">>, <<"m", "cm", "ft", "">>, <<"%", "deg N", "deg S", "">>,
        <<"rpm", "hz", "", "">>, <<"C", "F", "", "">>, <<"C", "F", "", "">>,
        <<"mercalli", "EU macroseismic", "liedu", "shindo">>,
        <<"local", "moment", "surface wave", "body wave">>, <<"", "", "", "">>,
        <<"ohm", "ohm", "ohm", "ohm">>, <<"siemens/m", "siemens/m", "siemens/m", "siemens/m">>,
        <<"db", "dBA", "", "">>, <<"%", "content", "k ohm", "water activity">> >>
TypeName(ty) == IF ty \in 1..31 THEN SensorName[ty] ELSE "Unknown (" \o ToString(ty) \o ")"
UnitName(ty, sc) == IF ty \in 1..31 THEN SensorUnit[ty][sc + 1] ELSE ""

(* ---- the payload of a report: command class, command, the bytes after them *)
Sensor(d) ==
    IF Len(d) < 2 THEN Err ELSE
    LET ty == d[1]
        size == d[2] % 8
        scale == (d[2] \div 8) % 4
        prec == d[2] \div 32
    IN  IF Len(d) < 2 + size \/ size \notin {0, 1, 2, 4} THEN Err ELSE
        LET m == CASE size = 0 -> 0
                   [] size = 1 -> Signed8(d[3])
                   [] size = 2 -> Signed8(d[3]) * 256 + d[4]
                   [] size = 4 -> ((Signed8(d[3]) * 256 + d[4]) * 256 + d[5]) * 256 + d[6]
        IN Val("SensorMultiLevel", <<ty, size, scale, prec>> \o Normal(m, prec),
               <<TypeName(ty), UnitName(ty, scale)>>)

Alarm(d) ==
    IF Len(d) < 2 THEN Err
    ELSE IF Len(d) < 6 THEN Val("Alarm", <<d[1], d[2], 0, 0, 0, 0>>, <<>>)
    ELSE Val("Alarm", <<d[1], d[2], d[3], d[5], d[6], d[4]>>, <<>>)

Report(cc, cmd, d) ==
    CASE cc = CCAlarm /\ cmd = 5 -> Alarm(d)
      [] cc = CCManufacturer /\ cmd = 5 ->
            IF Len(d) # 6 THEN Err
            ELSE Val("ManufacturerSpecific", <<>>, <<Hex16(d[1], d[2]), Hex16(d[3], d[4]), Hex16(d[5], d[6])>>)
      [] cc = CCMultiInstance /\ cmd = 8 ->
            IF Len(d) < 2 THEN Err
            ELSE Val("MultiChannelEndpoints", <<Bit(d[1], 128), Bit(d[1], 64), d[2]>>, <<>>)
      [] cc = CCSensorMultilevel /\ cmd = 5 -> Sensor(d)
      [] cc = CCSwitchBinary /\ cmd = 3 /\ Len(d) = 1 ->
            Val("SwitchBinaryV1", <<Bool(d[1] = 255), Bool(d[1] # 254)>>, <<>>)
      [] cc = CCSwitchBinary /\ cmd = 3 /\ Len(d) = 3 ->
            Val("SwitchBinaryV2", <<Bool(d[1] # 0), Bool(d[2] # 0), d[3]>>, <<>>)
      [] cc = CCSwitchMultilevel /\ cmd = 3 /\ Len(d) = 1 ->
            Val("SwitchMultilevelV1", <<Min2(d[1], 100), 0, Bool(d[1] # 254)>>, <<>>)
      [] cc = CCSwitchMultilevel /\ cmd = 3 /\ Len(d) = 3 ->
            Val("SwitchMultilevelV4", <<Min2(d[1], 100), 0, Min2(d[2], 100), 0, d[3],
                                        Bool(d[1] # 254), Bool(d[2] # 254)>>, <<>>)
      [] cc = CCWakeUp -> Val("WakeUp", <<>>, <<>>)
      [] OTHER -> Err

(* ---- answers of the controller itself *)
Discovered(d) ==
    IF Len(d) \notin 6..29 THEN Err
    ELSE Val("DiscoverdNodes",
             SelectSeq([n \in 1..(8 * Len(d)) |-> n],
                       LAMBDA n : HasBit(d[((n - 1) \div 8) + 1], 2 ^ ((n - 1) % 8))), <<>>)

ProtocolInfo(d) ==
    IF Len(d) < 6 THEN Err
    ELSE Val("ProtocolInfo",
             <<Bit(d[1], 128), Bit(d[1], 64), Bit(d[2], 16), (d[1] % 8) + 1,
               Bool(HasBit(d[2], 64) \/ HasBit(d[2], 32)), Bit(d[2], 1),
               IF (d[1] \div 8) % 8 = 2 THEN 40000 ELSE 9600, d[4], d[5], d[6]>>, <<>>)

(* ---- a whole frame *)
BadFrame == [ok |-> FALSE]
Message(f, node, val, cc, cmd) ==
    IF ~val.ok THEN BadFrame
    ELSE [ok |-> TRUE, len |-> f[2], mt |-> f[3], fn |-> f[4], node |-> node,
          t |-> val.t, v |-> val.v, s |-> val.s, cc |-> cc, cmd |-> cmd]

(* The length-prefixed part at index 7 of body, or <<>> with ok = FALSE. *)
Inner(b) ==
    IF Len(b) < 7 THEN [ok |-> FALSE, d |-> <<>>]
    ELSE IF Len(b) < 7 + b[7] THEN [ok |-> FALSE, d |-> <<>>]
    ELSE [ok |-> TRUE, d |-> SubSeq(b, 8, 7 + b[7])]

(* Decoding of a complete frame f with a correct checksum. *)
DecodeFrame(f) ==
    LET b == SubSeq(f, 1, Len(f) - 1) IN
    IF Len(b) < 4 THEN BadFrame
    ELSE CASE b[4] = FnReport ->
                 LET in == Inner(b) IN
                 IF ~in.ok \/ Len(in.d) < 2 THEN BadFrame
                 ELSE Message(f, b[6], Report(in.d[1], in.d[2], SubSeq(in.d, 3, Len(in.d))), in.d[1], in.d[2])
           [] b[4] = FnDiscover ->
                 LET in == Inner(b) IN
                 IF ~in.ok THEN BadFrame ELSE Message(f, 0, Discovered(in.d), -1, -1)
           [] b[4] = FnInfo ->
                 LET d == SubSeq(b, 5, Len(b)) IN
                 Message(f, 0, ProtocolInfo(IF Len(d) = 5 THEN d \o <<0>> ELSE d), -1, -1)
           [] OTHER -> BadFrame

(* ---- commands *)
BinarySet(node, on) == <<FnSend, node, 3, CCSwitchBinary, 1, IF on THEN 255 ELSE 0, 37>>
LevelSet(node, level) == <<FnSend, node, 3, CCSwitchMultilevel, 1, level, 37>>
(* commands.Raw counts its transmit options byte in the length. *)
RawSend(node, d) == <<FnSend, node, Len(d) + 1>> \o d
Encap(msg, ep) ==
    <<msg[1], msg[2], msg[3] + 4, CCMultiInstance, 13, 1, ep>> \o SubSeq(msg, 4, Len(msg))

(* Level bytes that stand for the requested value m / 10^p. *)
RECURSIVE Pow10(_)
Pow10(p) == IF p = 0 THEN 1 ELSE 10 * Pow10(p - 1)
LevelBytes(m, p) ==
    LET q == Pow10(p) IN
    IF m < q THEN {0}
    ELSE IF m >= 99 * q THEN {99}
    ELSE IF m % q = 0 THEN {m \div q}
    ELSE {m \div q, (m \div q) + 1}
LevelByteOK(m, p, b) == b \in LevelBytes(m, p)

(* Durations in seconds, -1: the factory default marker. *)
DurationSeconds(d) ==
    IF d <= 127 THEN d ELSE IF d <= 253 THEN (d - 127) * 60 ELSE -1
=============================================================================
