------------------------------- MODULE MCLabel ------------------------------
(***************************************************************************)
(* The label criteria stated a second time, independently: ContextJ as the *)
(* regular expression of RFC 5892 run as an automaton, the Bidi rule as    *)
(* the six numbered conditions of RFC 5893.  TLC checks on every           *)
(* enumerated label that the two statements agree.                         *)
(***************************************************************************)
EXTENDS Enum, Idna

(* (L|D) T* ZWNJ T* (R|D) around position i, as an automaton over the joining  *)
(* types: st = 0 nothing, 1 seen (L|D) T*                                      *)
Fwd(p, q, upto) ==
  FoldLeft(LAMBDA st, c : LET j == Join(p, c) IN IF j \in {JL, JD} THEN 1 ELSE IF j = JT THEN st ELSE 0,
           0, SubSeq(q, 1, upto))
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Bwd(p, q, from) ==
  FoldLeft(LAMBDA st, c : LET j == Join(p, c) IN IF j \in {JR, JD} THEN 1 ELSE IF j = JT THEN st ELSE 0,
           0, Rev(SubSeq(q, from, Len(q))))
ZwnjAutomaton(p, q, i) == Fwd(p, q, i - 1) = 1 /\ Bwd(p, q, i + 1) = 1
JoinersRestated(p, q) ==
  \A i \in 1..Len(q) :
    /\ q[i] = ZWJ => (i > 1 /\ Ccc(Std, q[i-1]) = 9)
    /\ q[i] = ZWNJ => ((i > 1 /\ Ccc(Std, q[i-1]) = 9) \/ ZwnjAutomaton(p, q, i))

(* RFC 5893 section 2, conditions 1 to 6 *)
BidiRestated(p, q) ==
  LET B(i) == Bidi(p, q[i])
      N == Len(q)
      endsIn(S) == \E i \in 1..N : B(i) \in S /\ \A j \in (i+1)..N : B(j) = BNSM
      rtl == B(1) \in {BR, BAL}
      ltr == B(1) = BL
  IN /\ rtl \/ ltr                                                                         \* 1
     /\ rtl => \A i \in 1..N : B(i) \in {BR, BAL, BAN, BEN, BES, BCS, BET, BON, BBN, BNSM}  \* 2
     /\ rtl => endsIn({BR, BAL, BEN, BAN})                                                 \* 3
     /\ rtl => ~((\E i \in 1..N : B(i) = BEN) /\ (\E i \in 1..N : B(i) = BAN))             \* 4
     /\ ltr => \A i \in 1..N : B(i) \in {BL, BEN, BES, BCS, BET, BON, BBN, BNSM}            \* 5
     /\ ltr => endsIn({BL, BEN})                                                           \* 6

LabelRestated(p, q) ==
  /\ ~Mark(p, q[1])
  /\ JoinersRestated(p, q)
  /\ (\E i \in 1..Len(q) : Bidi(p, q[i]) \in {BR, BAL, BAN}) => BidiRestated(p, q)

Agree == Input # << >> => (LoneLabelValid(Std, Input) <=> LabelRestated(Std, Input))
BidiAgree == Input # << >> => (BidiRule(Std, Input) <=> BidiRestated(Std, Input))

(* a valid label survives the trip through its A-label *)
AceAgree ==
  (Input # << >> /\ ~IsAscii(Input) /\ MapStable(Input) /\ IsNfc(Std, Input) /\ ~HasAcePrefix(Input)) =>
    LET e == PunyEncode(Input) IN
      /\ e.ok
      /\ LET d == DecodeAce(Std, Ace \o e.out) IN d.ok /\ d.out = Input
=============================================================================
