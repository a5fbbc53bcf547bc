------------------------------ MODULE MCAscii -------------------------------
EXTENDS Enum, Idna
(* the carve-out: total, idempotent, length-preserving, touches A-Z only *)
CarveOut ==
  LET r == ToAscii(Std, Input) IN
  /\ r.ok /\ Len(r.out) = Len(Input) /\ ToAscii(Std, r.out) = r
  /\ \A i \in 1..Len(Input) : IF Input[i] \in 65..90 THEN r.out[i] = Input[i] + 32 ELSE r.out[i] = Input[i]
=============================================================================
