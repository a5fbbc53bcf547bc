-------------------------------- MODULE MCEnc -------------------------------
(* encode then decode on enumerated code point sequences *)
EXTENDS Enum, Punycode

EncDec == LET e == PunyEncode(Input) IN
  e.ok => /\ IsAscii(e.out)
          /\ ~HasAcePrefix(Input) => PunyDecode(e.out) = [ok |-> TRUE, out |-> Input]
          /\ HasAcePrefix(Input) => ~PunyDecode(e.out).ok
Total == PunyEncode(Input).ok <=> \A i \in 1..Len(Input) : IsScalar(Input[i])
=============================================================================
