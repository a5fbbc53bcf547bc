-------------------------------- MODULE Idna --------------------------------
(***************************************************************************)
(* The public operations of ada-url/idna as functions over byte and code   *)
(* point sequences.  Pipeline.tla gives the same operations as a state     *)
(* machine, one action per stage; TLC checks that the two agree.           *)
(*                                                                         *)
(* Profile Std: UTS #46 revision for Unicode 17 as profiled by the       *)
(* WHATWG URL standard.  Profile Built: the named deviations of the      *)
(* shipped library, KF1..KF4 (stale tables, see Ucd) and KF5 (the Bidi     *)
(* rule is applied label by label, not to every label of a Bidi domain).   *)
(***************************************************************************)
EXTENDS Labels, Punycode, Utf8

Limit == 16384
Dot == 46
Ace == << 120, 110, 45, 45 >>

(* Map, UTS #46 section 4 step 1 *)
MapOne(c) == IF Status(c) = Valid THEN << c >> ELSE MapSeq(c)
MapAll(cps) ==
  IF \E i \in 1..Len(cps) : Status(cps[i]) = Disallowed THEN Fail
  ELSE [ok |-> TRUE, out |-> Cat([i \in 1..Len(cps) |-> MapOne(cps[i])])]
MapStable(cps) == \A i \in 1..Len(cps) : Status(cps[i]) = Valid

(* Break, section 4 step 3 *)
Split(s) ==
  LET dots == << 0 >> \o SetToSortSeq({i \in 1..Len(s) : s[i] = Dot}, <) \o << Len(s) + 1 >>
  IN [j \in 1..(Len(dots) - 1) |-> SubSeq(s, dots[j] + 1, dots[j + 1] - 1)]
JoinDots(labels) ==
  Cat([j \in 1..Len(labels) |-> IF j = 1 THEN labels[j] ELSE << Dot >> \o labels[j]])

StripAce(l) == SubSeq(l, 5, Len(l))

(* What an A-label stands for: [ok, out] with out the decoded code points.  *)
(* ok requires everything but the validity criteria of Labels.             *)
DecodeAce(p, l) ==
  IF ~IsAscii(l) THEN Fail
  ELSE LET r == PunyDecode(StripAce(l)) IN
       IF ~r.ok THEN Fail
       ELSE IF IsAscii(r.out) THEN Fail
       ELSE IF ~MapStable(r.out) THEN Fail
       ELSE IF ~IsNfc(p, r.out) THEN Fail
       ELSE r

(* U-form of a label of the mapped, normalised domain: [ok, out] *)
UForm(p, l) == IF HasAcePrefix(l) THEN DecodeAce(p, l) ELSE [ok |-> TRUE, out |-> l]

LabelToAscii(l) ==
  IF HasAcePrefix(l) \/ IsAscii(l) THEN [ok |-> TRUE, out |-> l]
  ELSE LET e == PunyEncode(l) IN IF e.ok THEN [ok |-> TRUE, out |-> Ace \o e.out] ELSE Fail

NeedsValidity(l) == HasAcePrefix(l) \/ ~IsAscii(l)

(* the canonical (mapped, normalised) form of a domain: [ok, out] *)
Canon(p, bytes) ==
  LET d == Utf8Decode(bytes) IN
  IF ~d.ok THEN Fail
  ELSE LET m == MapAll(d.cps) IN
       IF ~m.ok THEN Fail ELSE [ok |-> TRUE, out |-> Nfc(p, m.out)]

DomainToAscii(p, cps) ==
  LET labels == Split(cps)
      us == [i \in 1..Len(labels) |-> UForm(p, labels[i])]
  IN IF \E i \in 1..Len(us) : ~us[i].ok THEN Fail
     ELSE LET bd == ~p.dom /\ \E i \in 1..Len(us) : IsRtlLabel(p, us[i].out)
          IN IF \E i \in 1..Len(us) :
                  /\ bd \/ NeedsValidity(labels[i])
                  /\ ~LabelValid(p, us[i].out, bd)
             THEN Fail
             ELSE LET as == [i \in 1..Len(labels) |-> LabelToAscii(labels[i])]
                  IN IF \E i \in 1..Len(as) : ~as[i].ok THEN Fail
                     ELSE [ok |-> TRUE, out |-> JoinDots([i \in 1..Len(as) |-> as[i].out])]

Lower(bytes) == [i \in 1..Len(bytes) |-> AsciiLower(bytes[i])]

ToAscii(p, bytes) ==
  IF Len(bytes) > Limit THEN Fail
  ELSE IF IsAscii(bytes) THEN [ok |-> TRUE, out |-> Lower(bytes)]
  ELSE LET c == Canon(p, bytes) IN IF ~c.ok THEN Fail ELSE DomainToAscii(p, c.out)

(* Which clause decides the outcome: names the branch of the specification   *)
(* an execution exercises (coverage), not used for verdicts.                 *)
AceReason(p, l) ==
  IF ~IsAscii(l) THEN "ace-nonascii"
  ELSE LET r == PunyDecode(StripAce(l)) IN
       IF ~r.ok THEN "ace-puny"
       ELSE IF IsAscii(r.out) THEN "ace-ascii"
       ELSE IF ~MapStable(r.out) THEN "ace-unstable"
       ELSE IF ~IsNfc(p, r.out) THEN "ace-notnfc" ELSE "ok"
ValidReason(p, s, bd) ==
  IF s = << >> THEN "ok"
  ELSE IF Mark(p, s[1]) THEN "mark"
  ELSE IF ~ContextJ(p, s) THEN "joiner"
  ELSE IF (bd \/ IsRtlLabel(p, s)) /\ ~BidiRule(p, s) THEN "bidi" ELSE "ok"
Reason(p, bytes) ==
  IF Len(bytes) > Limit THEN "limit"
  ELSE IF IsAscii(bytes) THEN "ascii"
  ELSE LET d == Utf8Decode(bytes) IN
       IF ~d.ok THEN "utf8"
       ELSE LET m == MapAll(d.cps) IN
            IF ~m.ok THEN "disallowed"
            ELSE LET labels == Split(Nfc(p, m.out))
                     A == {i \in 1..Len(labels) : ~UForm(p, labels[i]).ok}
                 IN IF A # {} THEN AceReason(p, labels[CHOOSE i \in A : \A j \in A : i <= j])
                    ELSE LET us == [i \in 1..Len(labels) |-> UForm(p, labels[i]).out]
                             bd == ~p.dom /\ \E i \in 1..Len(us) : IsRtlLabel(p, us[i])
                             B == {i \in 1..Len(us) : (bd \/ NeedsValidity(labels[i])) /\ ValidReason(p, us[i], bd) # "ok"}
                         IN IF B # {} THEN ValidReason(p, us[CHOOSE i \in B : \A j \in B : i <= j], bd)
                            ELSE IF bd THEN "ok-bidi"
                            ELSE IF \E i \in 1..Len(labels) : HasAcePrefix(labels[i]) THEN "ok-ace"
                            ELSE IF IsAscii(m.out) THEN "ok-mapped-ascii"
                            ELSE IF Nfc(p, m.out) # m.out THEN "ok-nfc" ELSE "ok"

(* ToUnicode: label by label; a label that is not a valid lower-case A-label *)
(* is kept byte for byte.                                                    *)
LabelToUnicode(p, l) ==
  IF HasAcePrefix(l) /\ IsAscii(l)
  THEN LET r == DecodeAce(p, l) IN
       IF r.ok /\ LoneLabelValid(p, r.out) THEN Utf8Encode(r.out) ELSE l
  ELSE l

ToUnicode(p, bytes) ==
  IF Len(bytes) > Limit THEN Fail
  ELSE LET ls == Split(bytes)
       IN [ok |-> TRUE, out |-> JoinDots([i \in 1..Len(ls) |-> LabelToUnicode(p, ls[i])])]

(* WHATWG URL: forbidden domain code points (over bytes; non-ASCII bytes are  *)
(* not ASCII domain output and count as forbidden)                            *)
ForbiddenByte(b) ==
  \/ b <= 32 \/ b = 127 \/ b >= 128
  \/ b \in {35, 37, 47, 58, 60, 62, 63, 64, 91, 92, 93, 94, 124}

(* URLPattern: valid name code point *)
NameCodePoint(c, first) ==
  IF first THEN c = 36 \/ c = 95 \/ IdStart(c)
  ELSE c = 36 \/ IdContinue(c)

(* What every successful ToAscii output of non-ASCII input looks like *)
AsciiForm(p, out) ==
  /\ IsAscii(out)
  /\ \A i \in 1..Len(out) : ~(out[i] >= 65 /\ out[i] <= 90)
  /\ LET ls == Split(out) IN \A i \in 1..Len(ls) :
       HasAcePrefix(ls[i]) => LET r == DecodeAce(p, ls[i]) IN r.ok /\ LoneLabelValid(p, r.out)
=============================================================================
