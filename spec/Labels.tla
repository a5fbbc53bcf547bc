------------------------------- MODULE Labels -------------------------------
(***************************************************************************)
(* UTS #46 section 4.1 validity criteria that remain after mapping and     *)
(* NFC: leading combining mark, ContextJ (RFC 5892 A.1, A.2), Bidi rule    *)
(* (RFC 5893 section 2).  CheckHyphens = false, CheckJoiners = CheckBidi = *)
(* true.                                                                   *)
(***************************************************************************)
EXTENDS Nfc

ZWNJ == 8204
ZWJ  == 8205

(* index of the nearest non-transparent code point at or before / after i; 0 if none *)
SkipTBack(p, s, i) == SelectLastInSeq(SubSeq(s, 1, i), LAMBDA c : Join(p, c) # JT)
SkipTFwd(p, s, i) ==
  LET k == SelectInSeq(SubSeq(s, i, Len(s)), LAMBDA c : Join(p, c) # JT) IN IF k = 0 THEN 0 ELSE i + k - 1

AfterVirama(s, i) == i > 1 /\ Ccc(Std, s[i - 1]) = 9

JoinerOk(p, s, i) ==
  \/ AfterVirama(s, i)
  \/ /\ s[i] = ZWNJ
     /\ LET b == SkipTBack(p, s, i - 1)
            a == SkipTFwd(p, s, i + 1)
        IN b # 0 /\ a # 0 /\ Join(p, s[b]) \in {JL, JD} /\ Join(p, s[a]) \in {JR, JD}

ContextJ(p, s) == \A i \in 1..Len(s) : s[i] \in {ZWNJ, ZWJ} => JoinerOk(p, s, i)

IsRtlLabel(p, s) == \E i \in 1..Len(s) : Bidi(p, s[i]) \in {BR, BAL, BAN}

LastNonNsm(p, s) == SelectLastInSeq(s, LAMBDA c : Bidi(p, c) # BNSM)   \* 0 if there is none

BidiRule(p, s) ==
  LET cls == [i \in 1..Len(s) |-> Bidi(p, s[i])]
      has(S) == \E i \in 1..Len(s) : cls[i] \in S
      only(S) == \A i \in 1..Len(s) : cls[i] \in S
      z == LastNonNsm(p, s)
  IN CASE cls[1] \in {BR, BAL} ->
            /\ only({BR, BAL, BAN, BEN, BES, BCS, BET, BON, BBN, BNSM})
            /\ z # 0 /\ cls[z] \in {BR, BAL, BEN, BAN}
            /\ ~(has({BEN}) /\ has({BAN}))
       [] cls[1] = BL ->
            /\ only({BL, BEN, BES, BCS, BET, BON, BBN, BNSM})
            /\ z # 0 /\ cls[z] \in {BL, BEN}
       [] OTHER -> FALSE

(* bd: the label belongs to a Bidi domain name *)
LabelValid(p, s, bd) ==
  \/ s = << >>
  \/ /\ ~Mark(p, s[1])
     /\ ContextJ(p, s)
     /\ LastNonNsm(p, s) # 0        \* implied by the first conjunct in the standard
     /\ (bd \/ IsRtlLabel(p, s)) => BidiRule(p, s)

(* a label checked on its own *)
LoneLabelValid(p, s) == LabelValid(p, s, FALSE)
=============================================================================
