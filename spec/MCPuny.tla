------------------------------- MODULE MCPuny -------------------------------
(* RFC 3492 laws: decode then encode on enumerated byte strings.            *)
EXTENDS Enum, Punycode

(* the decoder as RFC 3492 section 6.2 words it *)
(* One generalised variable-length integer: position after it and the value  *)
(* i + sum of digit*weight, or ok = FALSE on a bad digit, truncation or an   *)
(* intermediate above 2^31-1.                                                *)
RECURSIVE Vli(_, _, _, _, _, _)
Vli(q, pos, i, w, k, bias) ==
  IF pos > Len(q) THEN [ok |-> FALSE, pos |-> pos, i |-> i]
  ELSE LET d == Digit(q[pos])
           t == Threshold(k, bias)
       IN IF d < 0 THEN [ok |-> FALSE, pos |-> pos, i |-> i]
          ELSE IF d > (MaxInt - i) \div w THEN [ok |-> FALSE, pos |-> pos, i |-> i]
          ELSE LET i2 == i + d * w IN
               IF d < t THEN [ok |-> TRUE, pos |-> pos + 1, i |-> i2]
               ELSE IF w > MaxInt \div (PBase - t) THEN [ok |-> FALSE, pos |-> pos, i |-> i2]
               ELSE Vli(q, pos + 1, i2, w * (PBase - t), k + PBase, bias)

RECURSIVE DecLoop(_, _, _, _, _, _)
DecLoop(q, pos, n, i, bias, out) ==
  IF pos > Len(q) THEN [ok |-> TRUE, out |-> out]
  ELSE LET v == Vli(q, pos, i, 1, PBase, bias) IN
       IF ~v.ok THEN Fail
       ELSE LET m == Len(out) + 1
                bias2 == Adapt(v.i - i, m, i = 0)
            IN IF v.i \div m > MaxInt - n THEN Fail
               ELSE LET n2 == n + v.i \div m
                        k == v.i % m
                    IN DecLoop(q, v.pos, n2, k + 1, bias2, InsertAt0(out, k, n2))

Rfc(q) ==
  LET d == LastDelim(q) IN
  IF d = 1 \/ ~IsAscii(SubSeq(q, 1, Max2(d - 1, 0))) THEN Fail
  ELSE LET r == DecLoop(q, d + 1, PN0, 0, PBias0, SubSeq(q, 1, Max2(d - 1, 0))) IN
       IF r.ok /\ HasAcePrefix(r.out) THEN Fail ELSE r
Restated == PunyDecode(Input) = Rfc(Input)
DecEnc == LET d == PunyDecode(Input) IN
  (d.ok /\ \A i \in 1..Len(d.out) : IsScalar(d.out[i])) =>
     LET e == PunyEncode(d.out) IN e.ok /\ e.out = Input
Refusal == ~PunyDecode(Input).ok => PunyDecode(Input).out = << >>
=============================================================================
