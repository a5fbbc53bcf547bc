-------------------------------- MODULE Nfc --------------------------------
(***************************************************************************)
(* Unicode Normalization Form C (UAX #15): canonical decomposition,        *)
(* canonical ordering, canonical composition.  p is the data profile.      *)
(***************************************************************************)
EXTENDS Ucd

SBase == 44032  LBase == 4352  VBase == 4449  TBase == 4519
LCount == 19  VCount == 21  TCount == 28  NCount == 588  SCount == 11172

IsHangulS(c) == c >= SBase /\ c < SBase + SCount

DecompOne(p, c) ==
  IF IsHangulS(c)
  THEN LET s == c - SBase IN
       << LBase + s \div NCount, VBase + ((s % NCount) \div TCount) >>
       \o (IF s % TCount = 0 THEN << >> ELSE << TBase + (s % TCount) >>)
  ELSE LET d == Decomp(p, c) IN IF d = << >> THEN << c >> ELSE d

(* insert c after the last element whose class is <= its own, never across a starter *)
InsertMark(p, s, c) ==
  LET n == SelectLastInSeq(s, LAMBDA x : Ccc(p, x) <= Ccc(p, c))
  IN SubSeq(s, 1, n) \o << c >> \o SubSeq(s, n + 1, Len(s))

OrderStep(p, s, c) ==
  IF Ccc(p, c) = 0 \/ s = << >> THEN Append(s, c) ELSE InsertMark(p, s, c)

Nfd(p, cps) ==
  FoldLeft(LAMBDA acc, c : FoldLeft(LAMBDA a, d : OrderStep(p, a, d), acc, DecompOne(p, c)), << >>, cps)

ComposePair(p, a, b) ==
  IF a >= LBase /\ a < LBase + LCount /\ b >= VBase /\ b < VBase + VCount
  THEN SBase + ((a - LBase) * VCount + (b - VBase)) * TCount
  ELSE IF IsHangulS(a) /\ (a - SBase) % TCount = 0 /\ b > TBase /\ b < TBase + TCount
  THEN a + (b - TBase)
  ELSE Compose(p, a, b)

(* q.st: index in q.out of the last starter (0: none); q.last: class of the  *)
(* last code point kept after it, -1 if none                                 *)
ComposeStep(p, q, c) ==
  LET cc == Ccc(p, c)
      unblocked == q.st # 0 /\ q.last < cc   \* -1 when adjacent: also admits starters
      k == IF unblocked THEN ComposePair(p, q.out[q.st], c) ELSE -1
  IN IF k # -1 THEN [q EXCEPT !.out[q.st] = k]
     ELSE IF cc = 0 THEN [out |-> Append(q.out, c), st |-> Len(q.out) + 1, last |-> -1]
     ELSE [q EXCEPT !.out = Append(@, c), !.last = cc]

Recompose(p, s) == FoldLeft(LAMBDA q, c : ComposeStep(p, q, c), [out |-> << >>, st |-> 0, last |-> -1], s).out

(* code points below U+00C0 neither decompose nor combine: skip the work *)
NfcInert(s) == \A i \in 1..Len(s) : s[i] >= 0 /\ s[i] < 192

NfcWhole(p, cps) == IF NfcInert(cps) THEN cps ELSE Recompose(p, Nfd(p, cps))
(* starters that neither decompose nor combine with what precedes them: nothing acts across *)
InertStarters == (0..191) \cup (19968..40959)
NfcByPieces(p, cps, k) ==
  LET P == Pieces(cps, LAMBDA c : (c >= 0 /\ c < 192) \/ (c >= 19968 /\ c < 40960), k)
  IN Cat([j \in 1..Len(P) |-> NfcWhole(p, P[j])])
Nfc(p, cps) == IF Len(cps) < LongFrom THEN NfcWhole(p, cps) ELSE NfcByPieces(p, cps, 32)
IsNfc(p, cps) == Nfc(p, cps) = cps
=============================================================================
