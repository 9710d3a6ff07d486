------------------------------ MODULE ZwNodes ------------------------------
(***************************************************************************)
(* What reports do to the state of a node.  A value is named "b:<key>"     *)
(* (boolean, <<0>> or <<1>>) or "f:<key>" (number, <<m, p>>); <<>> is a    *)
(* value that is not there.                                                *)
(***************************************************************************)
EXTENDS ZwCodec

LowerName ==
    <<"temperature", "general", "luminance", "power", "relativehumidity", "velocity", "direction",
      "atmosphericpressure", "barometricpressure", "solarradiation", "dewpoint", "rainrate", "tidelevel",
      "weight", "voltage", "current", "co2", "airflow", "tankcapacity", "distance", "angleposition",
      "rotation", "watertemperature", "soiltemperature", "seismicintensity", "seismicmagnitude",
      "ultraviolet", "electricalresistivity", "electricalconductivity", "loudness", "moisture">>
LowerUnit ==
    <<  <<"c", "f", "", "">>, <<"%", "", "", "">>, <<"%", "lux", "", "">>, <<"w", "btu/h", "", "">>,
        <<"%", "", "", "">>, <<"m/s", "mph", "", "">>, <<"", "", "", "">>, <<"kpa", "inhg", "", "">>,
        <<"kpa", "inhg", "", "">>, <<"w/m2", "w/m2", "w/m2", "w/m2">>, <<"c", "f", "", "">>,
        <<"mm/h", "in/h", "", "">>, <<"m", "ft", "", "">>, <<"kg", "lb", "", "">>, <<"v", "mv", "", "">>,
        <<"a", "ma", "", "">>, <<"ppm", "ppm", "ppm", "ppm">>, <<"m3/h", "cfm", "", "">>,
        <<"l", "cbm", "gal", "">>, <<"m", "cm", "ft", "">>, <<"%", "deg n", "deg s", "">>,
        <<"rpm", "hz", "", "">>, <<"c", "f", "", "">>, <<"c", "f", "", "">>,
        <<"mercalli", "eu macroseismic", "liedu", "shindo">>,
        <<"local", "moment", "surface wave", "body wave">>, <<"", "", "", "">>,
        <<"ohm", "ohm", "ohm", "ohm">>, <<"siemens/m", "siemens/m", "siemens/m", "siemens/m">>,
        <<"db", "dba", "", "">>, <<"%", "content", "k ohm", "water activity">> >>
SensorKey(ty, sc) ==
    IF ty \in 1..31 THEN LowerName[ty] \o "_" \o LowerUnit[ty][sc + 1]
    ELSE "unknown (" \o ToString(ty) \o ")_"

Set(key, val) == [k |-> key, v |-> val]
StateReports == {"SwitchBinaryV1", "SwitchBinaryV2", "SwitchMultilevelV1", "SwitchMultilevelV4", "SensorMultiLevel"}

(* The values a switch or sensor report sets. *)
Assignments(m) ==
    CASE m.t \in {"SwitchBinaryV1", "SwitchBinaryV2"} -> <<Set("b:on", <<m.v[1]>>)>>
      [] m.t \in {"SwitchMultilevelV1", "SwitchMultilevelV4"} ->
            <<Set("b:on", <<Bool(m.v[1] > 0)>>), Set("f:level", <<m.v[1], m.v[2]>>)>>
      [] m.t = "SensorMultiLevel" -> <<Set("f:" \o SensorKey(m.v[1], m.v[3]), <<m.v[5], m.v[6]>>)>>
      [] OTHER -> <<>>

ActiveAlarm(m) == m.t = "Alarm" /\ m.v[6] = 255
AlarmSet(m) ==
    <<Set("b:alarm", <<1>>)>> \o
    (IF m.v[1] = 0 THEN <<>> ELSE <<Set("f:alarm", <<m.v[1], 0>>), Set("f:alarmLastType", <<m.v[1], 0>>)>>)
AlarmEnd == <<Set("b:alarm", <<0>>), Set("f:alarm", <<0, 0>>)>>
AlarmKeys == {"b:alarm", "f:alarm", "f:alarmLastType"}

(* The command that node control sends to a node with the classes cc,
   <<>>: nothing; a set because the byte of a fractional level may be
   rounded either way. *)
Control(k, node, cc, m, p) ==
    LET has(c) == \E i \in 1..Len(cc) : cc[i] = c IN
    CASE k = "on"  -> IF has(CCSwitchBinary) THEN {BinarySet(node, TRUE)}
                      ELSE IF has(CCSwitchMultilevel) THEN {LevelSet(node, 99)} ELSE {<<>>}
      [] k = "off" -> IF has(CCSwitchBinary) THEN {BinarySet(node, FALSE)}
                      ELSE IF has(CCSwitchMultilevel) THEN {LevelSet(node, 0)} ELSE {<<>>}
      [] k = "level" -> IF has(CCSwitchMultilevel) THEN {LevelSet(node, l) : l \in LevelBytes(m, p)} ELSE {<<>>}

EpControl(k, node, ep, cc, m, p) ==
    LET kind == CASE k = "epon" -> "on" [] k = "epoff" -> "off" [] k = "eplevel" -> "level"
    IN {IF c = <<>> THEN <<>> ELSE Encap(c, ep) : c \in Control(kind, node, cc, m, p)}
=============================================================================
