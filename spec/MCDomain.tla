------------------------------ MODULE MCDomain ------------------------------
(* Laws of the two conversions, on every enumerated domain (code points).  *)
EXTENDS Enum, Idna

Bytes == Utf8Encode(Input)
Encodable == \A i \in 1..Len(Input) : IsScalar(Input[i])

(* C07/C09: the result is in ASCII form, and converting it again is the identity *)
Canonical ==
  Encodable => LET r == ToAscii(Std, Bytes) IN
    /\ (r.ok /\ ~IsAscii(Bytes)) => AsciiForm(Std, r.out)
    /\ (r.ok /\ ~IsAscii(Bytes)) => ToAscii(Std, r.out) = r
    /\ ~r.ok => r.out = << >>

(* C11: round trip through Unicode, which is the mapped, normalised form *)
RoundTrip ==
  Encodable => LET r == ToAscii(Std, Bytes) IN
    (r.ok /\ ~IsAscii(Bytes)) =>
       LET u == ToUnicode(Std, r.out)
           ls == Split(Canon(Std, Bytes).out)
       IN /\ u.ok
          /\ ToAscii(Std, u.out) = r
          /\ ToUnicode(Std, u.out) = u
          /\ u.out = Utf8Encode(JoinDots([i \in 1..Len(ls) |-> UForm(Std, ls[i]).out]))

(* C09: the canonical spelling gives the same answer as the input *)
CanonStable ==
  Encodable => LET c == Canon(Std, Bytes) IN
    (c.ok /\ ~IsAscii(Bytes)) =>
       /\ MapStable(c.out) /\ IsNfc(Std, c.out)
       /\ ~IsAscii(c.out) => ToAscii(Std, Utf8Encode(c.out)) = ToAscii(Std, Bytes)

(* C10: to_unicode keeps dots and changes only valid A-labels *)
UnicodeTotal ==
  Encodable => LET u == ToUnicode(Std, Bytes) IN
    /\ u.ok
    /\ Len(Split(u.out)) = Len(Split(Bytes)) \* a valid A-label never decodes to a dot
    /\ \A i \in 1..Len(Split(Bytes)) :
         Split(u.out)[i] # Split(Bytes)[i] => HasAcePrefix(Split(Bytes)[i])

(* KF5 and the stale tables aside, the deviating profile only differs in verdicts: *)
(* whenever both succeed on an input free of stale code points they agree           *)
DeviationBounded ==
  Encodable => LET a == ToAscii(Std, Bytes)
                   b == ToAscii([Std EXCEPT !.dom = TRUE], Bytes)
               IN a.ok => b = a
=============================================================================
