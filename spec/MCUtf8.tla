------------------------------- MODULE MCUtf8 -------------------------------
(* the decoder automaton against a direct statement of well-formedness *)
EXTENDS Enum, Utf8

(* b is the encoding of some sequence of scalar values: peel one off the front *)
Lead(b) == IF b < 128 THEN 1 ELSE IF b \in 192..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..247 THEN 4 ELSE 0
Val(q) == CASE Len(q) = 1 -> q[1]
            [] Len(q) = 2 -> (q[1] - 192) * 64 + (q[2] - 128)
            [] Len(q) = 3 -> (q[1] - 224) * 4096 + (q[2] - 128) * 64 + (q[3] - 128)
            [] Len(q) = 4 -> (q[1] - 240) * 262144 + (q[2] - 128) * 4096 + (q[3] - 128) * 64 + (q[4] - 128)
RECURSIVE Parse(_, _)
Parse(b, acc) ==
  IF b = << >> THEN [ok |-> TRUE, cps |-> acc]
  ELSE LET n == Lead(b[1]) IN
       IF n = 0 \/ n > Len(b) THEN [ok |-> FALSE, cps |-> acc]
       ELSE IF \E i \in 2..n : b[i] < 128 \/ b[i] > 191 THEN [ok |-> FALSE, cps |-> acc]
       ELSE LET c == Val(SubSeq(b, 1, n)) IN
            IF ~IsScalar(c) \/ Utf8Enc(c) # SubSeq(b, 1, n) THEN [ok |-> FALSE, cps |-> acc]
            ELSE Parse(SubSeq(b, n + 1, Len(b)), Append(acc, c))

Agree == LET d == Utf8Decode(Input)
             e == Parse(Input, << >>)
         IN d.ok = e.ok /\ (d.ok => d.cps = e.cps)
Piecewise == \A k \in 1..2 : LET d == Utf8ByPieces(Input, k)
                                  e == Utf8Whole(Input)
                              IN d.ok = e.ok /\ (d.ok => d = e)
InverseLaw == LET d == Utf8Decode(Input) IN d.ok => (Utf8Encode(d.cps) = Input /\ Utf8Length(d.cps) = Len(Input))
=============================================================================
