------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The two conversions as state machines, one action per stage, so that    *)
(* ordering, per-label carry-over and failure behaviour are explicit:      *)
(*                                                                         *)
(*  to_ascii:   Guard -> (Carve) | Decode -> Map -> Normalise -> Break ->  *)
(*              Unfold* -> Check* -> Encode* -> Done | Refuse              *)
(*  to_unicode: Guard -> Break -> Unfold one label at a time -> Done       *)
(*                                                                         *)
(* TLC explores every enumerated input and checks that the machine is      *)
(* deterministic in its result, ends, computes the operators of Idna, and  *)
(* that an aborted run leaves an empty output.                             *)
(***************************************************************************)
EXTENDS Idna

Gen == JsonDeserialize(IOEnv.GEN)
Alphabet == Gen.alphabet
MaxSymbols == Gen.max
Emitting == Gen.emit

VARIABLES
  dir,    \* "ascii" or "unicode"
  prof,   \* profile the run is made under
  input,  \* bytes
  stage,  \* where the machine is
  cps,    \* working code points
  labels, \* labels after Break
  us,     \* their U-forms, filled by Unfold
  k,      \* next label
  out,    \* output so far (bytes)
  res     \* "running", "ok", "refused"
vars == << dir, prof, input, stage, cps, labels, us, k, out, res >>

Flat(q) == FoldLeft(LAMBDA acc, i : acc \o Alphabet[i], << >>, q)
Inputs == UNION {[1..n -> 1..Len(Alphabet)] : n \in 0..MaxSymbols}

Init ==
  /\ dir \in {"ascii", "unicode"} /\ prof \in {Std, Built}
  /\ \E q \in Inputs : input = Utf8Encode(Flat(q))
  /\ stage = "guard" /\ cps = << >> /\ labels = << >> /\ us = << >> /\ k = 1 /\ out = << >> /\ res = "running"

Refuse == stage' = "done" /\ res' = "refused" /\ out' = << >> /\ UNCHANGED << dir, prof, input, cps, labels, us, k >>
Goto(s) == stage' = s /\ UNCHANGED << dir, prof, input, res >>

Guard ==
  /\ stage = "guard"
  /\ IF Len(input) > Limit THEN Refuse
     ELSE Goto(IF dir = "unicode" THEN "ubreak" ELSE IF IsAscii(input) THEN "carve" ELSE "decode")
          /\ UNCHANGED << cps, labels, us, k, out >>
Carve == stage = "carve" /\ out' = Lower(input) /\ stage' = "done" /\ res' = "ok" /\ UNCHANGED << dir, prof, input, cps, labels, us, k >>
Decode ==
  /\ stage = "decode"
  /\ LET d == Utf8Decode(input) IN
     IF ~d.ok THEN Refuse ELSE Goto("map") /\ cps' = d.cps /\ UNCHANGED << labels, us, k, out >>
MapStage ==
  /\ stage = "map"
  /\ LET m == MapAll(cps) IN
     IF ~m.ok THEN Refuse ELSE Goto("normalise") /\ cps' = m.out /\ UNCHANGED << labels, us, k, out >>
Normalise == stage = "normalise" /\ Goto("break") /\ cps' = Nfc(prof, cps) /\ UNCHANGED << labels, us, k, out >>
Break ==
  /\ stage = "break" /\ Goto("unfold")
  /\ labels' = Split(cps) /\ us' = << >> /\ k' = 1 /\ UNCHANGED << cps, out >>
Unfold ==
  /\ stage = "unfold"
  /\ IF k > Len(labels) THEN Goto("check") /\ k' = 1 /\ UNCHANGED << cps, labels, us, out >>
     ELSE LET u == UForm(prof, labels[k]) IN
          IF ~u.ok THEN Refuse
          ELSE Goto("unfold") /\ us' = Append(us, u.out) /\ k' = k + 1 /\ UNCHANGED << cps, labels, out >>
BidiDomain == ~prof.dom /\ \E i \in 1..Len(us) : IsRtlLabel(prof, us[i])
Check ==
  /\ stage = "check"
  /\ IF k > Len(labels) THEN Goto("encode") /\ k' = 1 /\ UNCHANGED << cps, labels, us, out >>
     ELSE IF (BidiDomain \/ NeedsValidity(labels[k])) /\ ~LabelValid(prof, us[k], BidiDomain) THEN Refuse
     ELSE Goto("check") /\ k' = k + 1 /\ UNCHANGED << cps, labels, us, out >>
Encode ==
  /\ stage = "encode"
  /\ IF k > Len(labels) THEN stage' = "done" /\ res' = "ok" /\ UNCHANGED << dir, prof, input, cps, labels, us, k, out >>
     ELSE LET a == LabelToAscii(labels[k]) IN
          IF ~a.ok THEN Refuse
          ELSE Goto("encode") /\ k' = k + 1 /\ UNCHANGED << cps, labels, us >>
               /\ out' = (IF k > 1 THEN Append(out, Dot) ELSE out) \o a.out

UBreak == stage = "ubreak" /\ Goto("ulabel") /\ labels' = Split(input) /\ UNCHANGED << cps, us, k, out >>
ULabel ==
  /\ stage = "ulabel"
  /\ IF k > Len(labels) THEN stage' = "done" /\ res' = "ok" /\ UNCHANGED << dir, prof, input, cps, labels, us, k, out >>
     ELSE Goto("ulabel") /\ k' = k + 1 /\ UNCHANGED << cps, labels, us >>
          /\ out' = (IF k > 1 THEN Append(out, Dot) ELSE out) \o LabelToUnicode(prof, labels[k])

Next == Guard \/ Carve \/ Decode \/ MapStage \/ Normalise \/ Break \/ Unfold \/ Check \/ Encode \/ UBreak \/ ULabel
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- properties ---- *)
Result == IF dir = "ascii" THEN ToAscii(prof, input) ELSE ToUnicode(prof, input)
Refines == stage = "done" => ((res = "ok") = Result.ok /\ out = Result.out)
FailClosed == res = "refused" => out = << >>
AsciiOutput == dir = "ascii" => IsAscii(out)
UnicodeNeverFails == dir = "unicode" => res # "refused"   \* inputs here are within the limit
GrowsOnly == [][res' = "refused" \/ IsPrefix(out, out')]_out
StageOrder == [][stage = "done" => stage' = "done"]_stage
Ends == <>(stage = "done")
Emit == (stage = "guard" /\ prof = Std /\ dir = "ascii" /\ Emitting) => PrintT("G " \o ToJson(input))
=============================================================================
