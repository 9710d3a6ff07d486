----------------------------- MODULE CodecTrace -----------------------------
(***************************************************************************)
(* Checks what the real codec did with given inputs against ZwCodec and    *)
(* ZwFraming.  Every event is one input with the result of the library.    *)
(***************************************************************************)
EXTENDS ZwCodec, ZwFraming, Json, IOUtils

VARIABLES tr, pos, st

StInit(trace) == [amb |-> "", bad |-> {}]

SameData(d, v) == d.t = v.t /\ d.v = v.v /\ d.s = v.s

(* ---- Decode of a buffer *)
Structure(e) ==
    LET x == Take(e.b) r == e.res IN
    CASE x.k = "wait"  -> r.l = (IF Len(e.b) < 2 THEN 2 ELSE e.b[2] + 2) /\ r.msg.k = "none"
      [] x.k = "skip"  -> r.l = -1 /\ r.msg.k = "none"
      [] x.k = "ctl"   -> r.l = 1 /\ r.err = 0 /\ r.start = e.b[1]
      [] x.k = "frame" ->
            LET m == DecodeFrame(x.f)
                inner == e.fn # 0
                okExp == inner /\ r.direct.err = 0    \* decodable iff its payload is
            IN  /\ r.l = x.n
                /\ r.start \in {-1, 0}
                /\ (r.msg.k = "msg") = okExp
                /\ (r.err = 0) = okExp
                /\ okExp => /\ r.msg.len = x.f[2] /\ r.msg.mt = x.f[3] /\ r.msg.fn = x.f[4]
                            /\ r.msg.node = (IF x.f[4] = FnReport THEN x.f[6] ELSE 0)
                            /\ r.msg.data = r.direct.data

(* The generator must agree with the specification about the payload. *)
Payloads(f) ==
    LET b == SubSeq(f, 1, Len(f) - 1) d == SubSeq(b, 5, Len(b)) IN
    IF Len(b) < 4 THEN [fn |-> 0, d |-> <<>>]
    ELSE CASE b[4] \in {FnReport, FnDiscover} ->
                LET in == Inner(b) IN IF in.ok THEN [fn |-> b[4], d |-> in.d] ELSE [fn |-> 0, d |-> <<>>]
           [] b[4] = FnInfo -> [fn |-> FnInfo, d |-> IF Len(d) = 5 THEN d \o <<0>> ELSE d]
           [] OTHER -> [fn |-> 0, d |-> <<>>]

DirectExp(fn, d) ==
    CASE fn = FnReport -> IF Len(d) < 2 THEN Err ELSE Report(d[1], d[2], SubSeq(d, 3, Len(d)))
      [] fn = FnDiscover -> Discovered(d)
      [] fn = FnInfo -> ProtocolInfo(d)
DirectOK(e) ==
    LET x == DirectExp(e.fn, e.in) r == e.res.direct IN
    /\ (r.err = 0) = x.ok
    /\ x.ok => /\ SameData(r.data, x)
               /\ e.fn = FnReport => r.data.cc = e.in[1] /\ r.data.cmd = e.in[2]

DecodeBad(e) ==
    LET x == Take(e.b)
        gen == x.k = "frame" /\ Payloads(x.f) # [fn |-> e.fn, d |-> e.in]
    IN  (IF gen THEN {"GEN:payload of the generator"} ELSE {}) \cup
        (IF ~Structure(e) THEN {"C03:decoding of a frame"} ELSE {}) \cup
        (IF x.k = "frame" /\ e.fn # 0 /\ ~DirectOK(e) THEN {"C04:values of a payload"} ELSE {})

ReportBad(e) ==
    LET x == Report(e.cc, e.cmd, e.b) r == e.res IN
    IF (r.err = 0) # x.ok \/ (x.ok /\ ~SameData(r.rep, x)) THEN {"C04:values of a report"} ELSE {}

DurationBad(e) ==
    LET x == DurationSeconds(e.b[1]) IN
    IF e.res.sec # x \/ (x < 0 /\ e.res.str # "Factory default duration") THEN {"C04:duration"} ELSE {}

OutBad(e) ==
    LET o == e.res.out
        ok == CASE e.op = "compile" -> o = Frame(e.b)
                [] e.op = "binary"  -> o = BinarySet(e.node, e.on = 1)
                [] e.op = "level"   -> \E l \in LevelBytes(e.m, e.p) : o = LevelSet(e.node, l)
                [] e.op = "raw"     -> o = RawSend(e.node, e.b)
                [] e.op = "encap"   -> o = Encap(e.b, e.ep)
    IN IF ok THEN {} ELSE {"C05:encoding of " \o e.op}

Prop(op) == IF op \in {"decode", "newmsg"} THEN "C03" ELSE IF op \in {"report", "kinds", "duration"} THEN "C04" ELSE "C05"

VectorBad(e) ==
    IF e.res.panic # "" THEN {Prop(e.op) \o ":panic in " \o e.op}
    ELSE (IF e.res.same = 0 THEN {Prop(e.op) \o ":changes the buffer of the caller in " \o e.op} ELSE {}) \cup
         (IF e.res.stable = 0 THEN {Prop(e.op) \o ":result changes with the buffer in " \o e.op} ELSE {}) \cup
         (IF e.res.again = 0 THEN {Prop(e.op) \o ":result depends on what was coded before in " \o e.op} ELSE {}) \cup
         (CASE e.op = "decode" -> DecodeBad(e)
            [] e.op = "report" -> ReportBad(e)
            [] e.op = "duration" -> DurationBad(e)
            [] e.op \in {"kinds", "newmsg"} -> {}   \* must not panic, whatever the input
            [] OTHER -> OutBad(e))

Judge(ms, e) ==
    LET b == VectorBad(e) IN
    IF b = {} THEN ms ELSE [ms EXCEPT !.bad = @ \cup {x \o " #" \o ToString(e.id) : x \in b}]

Traces == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE TraceDriver
=============================================================================
