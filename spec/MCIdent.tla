------------------------------- MODULE MCIdent ------------------------------
EXTENDS Enum, Idna
(* whatever may start a name may continue it, '$' and '_' included; digits and marks may only continue *)
StartContinues == \A i \in 1..Len(Input) : NameCodePoint(Input[i], TRUE) => NameCodePoint(Input[i], FALSE)
ScalarsOnly == \A i \in 1..Len(Input) : NameCodePoint(Input[i], FALSE) => IsScalar(Input[i])
MarksNeverStart == \A i \in 1..Len(Input) : Mark(Std, Input[i]) => ~NameCodePoint(Input[i], TRUE)
=============================================================================
