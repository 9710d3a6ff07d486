------------------------------ MODULE DataTrace -----------------------------
(***************************************************************************)
(* Lookups of products and device classes.  The tables are what the        *)
(* shipped device files and the shipped mandatory list say; a lookup gives *)
(* the entry of its key, or nothing, whatever callers have done with       *)
(* earlier results ("mut").                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLES tr, pos, st

Tables == JsonDeserialize(IOEnv.TABLES)
Products == Tables.products       \* key -> record
Mandatory == Tables.mandatory     \* "generic_specific" -> sequence of possible class lists

SetOf(s) == {s[i] : i \in 1..Len(s)}

(* The state is how often a caller has changed its results; no lookup may depend on it. *)
StInit(trace) == [muts |-> 0, amb |-> "", bad |-> {}]

Look(key) == IF key \in DOMAIN Products THEN <<Products[key]>> ELSE <<>>
SameProduct(a, b) ==
    /\ a.brand = b.brand /\ a.product = b.product /\ a.descr = b.descr /\ a.iden = b.iden
    /\ SetOf(a.cc) = SetOf(b.cc) /\ Len(a.cc) = Len(b.cc)
DevOk(e) ==
    LET x == Look(e.key) IN
    /\ Len(e.res) = Len(x)
    /\ Len(x) = 1 => SameProduct(e.res[1], x[1])

(* row: the specific classes in from..to that the library knows, with their command classes *)
Named(g) == {s \in 0..255 : (ToString(g) \o "_" \o ToString(s)) \in DOMAIN Mandatory}
MandOk(e) ==
    /\ {e.row[i][1] : i \in 1..Len(e.row)} = {s \in Named(e.g) : e.from <= s /\ s <= e.to}
    /\ \A i \in 1..Len(e.row) :
          LET lists == Mandatory[ToString(e.g) \o "_" \o ToString(e.row[i][1])] IN
          \E j \in 1..Len(lists) : SetOf(e.row[i][2]) = SetOf(lists[j]) /\ Len(e.row[i][2]) = Len(lists[j])

Judge(ms, e) ==
    CASE e.e = "dev"  -> IF DevOk(e) THEN ms ELSE [ms EXCEPT !.bad = @ \cup {"C26:wrong product " \o e.key}]
      [] e.e = "mand" -> IF MandOk(e) THEN ms ELSE [ms EXCEPT !.bad = @ \cup {"C26:wrong mandatory command classes " \o ToString(e.g)}]
      [] e.e = "mut"  -> [ms EXCEPT !.muts = @ + 1]
      [] e.e = "panic" -> [ms EXCEPT !.bad = @ \cup {"C26:lookup panics"}]

Traces == ndJsonDeserialize(IOEnv.TRACES)
INSTANCE TraceDriver
=============================================================================
