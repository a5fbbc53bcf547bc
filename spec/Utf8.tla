-------------------------------- MODULE Utf8 -------------------------------
(***************************************************************************)
(* UTF-8 as in Unicode 17.0 table 3-7: a DFA over bytes for decoding, and  *)
(* the encoder.                                                            *)
(***************************************************************************)
EXTENDS Ucd

(* automaton: need = continuation bytes still due, lo..hi = range of the next byte *)
Utf8Start == [ok |-> TRUE, need |-> 0, lo |-> 128, hi |-> 191, cp |-> 0, out |-> << >>]

Utf8Step(q, b) ==
  IF ~q.ok THEN q
  ELSE IF q.need = 0 THEN
    IF b < 128 THEN [q EXCEPT !.out = Append(@, b)]
    ELSE IF b \in 194..223 THEN [q EXCEPT !.need = 1, !.lo = 128, !.hi = 191, !.cp = b - 192]
    ELSE IF b \in 224..239 THEN
      [q EXCEPT !.need = 2, !.lo = IF b = 224 THEN 160 ELSE 128,
                !.hi = IF b = 237 THEN 159 ELSE 191, !.cp = b - 224]
    ELSE IF b \in 240..244 THEN
      [q EXCEPT !.need = 3, !.lo = IF b = 240 THEN 144 ELSE 128,
                !.hi = IF b = 244 THEN 143 ELSE 191, !.cp = b - 240]
    ELSE [q EXCEPT !.ok = FALSE]
  ELSE IF b < q.lo \/ b > q.hi THEN [q EXCEPT !.ok = FALSE]
  ELSE LET c == q.cp * 64 + (b - 128) IN
       IF q.need = 1 THEN [q EXCEPT !.need = 0, !.cp = 0, !.lo = 128, !.hi = 191, !.out = Append(@, c)]
       ELSE [q EXCEPT !.need = @ - 1, !.cp = c, !.lo = 128, !.hi = 191]

(* [ok, cps] *)
Utf8Whole(bytes) ==
  LET q == FoldLeft(Utf8Step, Utf8Start, bytes)
  IN [ok |-> q.ok /\ q.need = 0, cps |-> q.out]
(* nothing continues over a byte that is not a continuation byte *)
Utf8ByPieces(bytes, k) ==
  LET P == Pieces(bytes, LAMBDA b : b < 128 \/ b > 191, k)
      D == [j \in 1..Len(P) |-> Utf8Whole(P[j])]
  IN [ok |-> \A j \in 1..Len(D) : D[j].ok, cps |-> Cat([j \in 1..Len(D) |-> D[j].cps])]
Utf8Decode(bytes) == IF Len(bytes) < LongFrom THEN Utf8Whole(bytes) ELSE Utf8ByPieces(bytes, 64)

WellFormed(bytes) == Utf8Decode(bytes).ok

Utf8Enc(c) ==
  IF c < 128 THEN << c >>
  ELSE IF c < 2048 THEN << 192 + c \div 64, 128 + (c % 64) >>
  ELSE IF c < 65536 THEN << 224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64) >>
  ELSE << 240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>

Utf8Encode(cps) == Cat([i \in 1..Len(cps) |-> Utf8Enc(cps[i])])

Utf8Len(c) == IF c < 0 \/ c > 65535 THEN 4 ELSE IF c > 2047 THEN 3 ELSE IF c > 127 THEN 2 ELSE 1
Utf8Length(cps) == FoldLeft(LAMBDA n, c : n + Utf8Len(c), 0, cps)
=============================================================================
