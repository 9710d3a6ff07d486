------------------------------ MODULE ZwBytes ------------------------------
(***************************************************************************)
(* Bytes, checksums and frames of the Z-Wave serial API.                   *)
(* A frame is <<1, length, type, payload..., checksum>>; length counts     *)
(* every byte but the first and the last.                                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, Bitwise

SOF == 1
ACK == 6
NAK == 21
CAN == 24
Controls == {ACK, NAK, CAN}

Byte == 0..255

HasBit(b, bit) == (b \div bit) % 2 = 1      \* bit is a power of two

RECURSIVE XorFrom(_, _, _)
XorFrom(q, i, n) == IF i > n THEN 0 ELSE q[i] ^^ XorFrom(q, i + 1, n)

(* Checksum over the bytes q[i..n]: 255 xor all of them. *)
Checksum(q, i, n) == 255 ^^ XorFrom(q, i, n)

(* The request frame that carries the command payload d (at most 253 bytes). *)
Frame(d) ==
    LET body == <<Len(d) + 2, 0>> \o d
    IN  <<SOF>> \o body \o <<Checksum(body, 1, Len(body))>>

(* A frame of the given type byte: what the controller sends. *)
FrameOf(type, d) ==
    LET body == <<Len(d) + 2, type>> \o d
    IN  <<SOF>> \o body \o <<Checksum(body, 1, Len(body))>>

WellFormedFrame(f) ==
    /\ Len(f) >= 3
    /\ f[1] = SOF
    /\ Len(f) = f[2] + 2
    /\ f[Len(f)] = Checksum(f, 2, Len(f) - 1)

(* A well-formed request frame, as written to the controller. *)
WellFormedRequest(f) == WellFormedFrame(f) /\ f[2] >= 3 /\ f[3] = 0

Payload(f) == SubSeq(f, 4, Len(f) - 1)
=============================================================================
