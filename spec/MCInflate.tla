------------------------------ MODULE MCInflate -----------------------------
(***************************************************************************)
(* Laws of raw DEFLATE on enumerated bit streams.  A symbol of the         *)
(* alphabet is a piece of a stream as bits (a block header, a literal, a   *)
(* match, an end-of-block code ...), in stream order; the law says what    *)
(* the decoder specification must satisfy on the packed bytes.             *)
(***************************************************************************)
EXTENDS Enum, Inflate

Bits == Input
NBytes == (Len(Bits) + 7) \div 8
BitOr0(i) == IF i <= Len(Bits) THEN Bits[i] ELSE 0
Packed == [k \in 1..NBytes |->
  BitOr0(8*k-7) + 2*BitOr0(8*k-6) + 4*BitOr0(8*k-5) + 8*BitOr0(8*k-4)
  + 16*BitOr0(8*k-3) + 32*BitOr0(8*k-2) + 64*BitOr0(8*k-1) + 128*BitOr0(8*k)]

Cap == 600
R == InflateRaw(Packed, Cap)
(* a verdict is one of three; only a decoded stream has a verdict-independent output *)
Verdict == R.v \in {"ok", "bad", "grey"}
(* what follows a complete stream is not looked at *)
Trailing == (R.v = "ok" /\ Len(R.out) <= Cap) => \A x \in {0, 165, 255} : LET q == InflateRaw(Append(Packed, x), Cap) IN q.v = "ok" /\ q.out = R.out /\ q.pos = R.pos
(* every byte up to the end of the stream is needed *)
Truncated == (R.v = "ok" /\ Len(R.out) <= Cap) =>
  LET used == (R.pos + 7) \div 8 IN \A k \in 0..(used - 1) : InflateRaw(SubSeq(Packed, 1, k), Cap).v = "bad"
(* the capacity decides only whether the output fits *)
Capacity == (R.v = "ok" /\ Len(R.out) <= Cap) =>
  /\ InflateAllowed(Packed, Len(R.out), Len(R.out), R.out)
  /\ Len(R.out) > 0 => ~InflateAllowed(Packed, Len(R.out) - 1, Len(R.out), R.out)
(* bytes for the driver *)
EmitBytes == Emitting => PrintT("G " \o ToJson(Packed))
=============================================================================
