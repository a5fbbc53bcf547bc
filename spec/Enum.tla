-------------------------------- MODULE Enum --------------------------------
(***************************************************************************)
(* Bounded-exhaustive enumeration of inputs: every sequence of at most     *)
(* MaxSymbols symbols of an alphabet, in every context.  A symbol is a sequence   *)
(* of units (bytes or code points).  The MC* modules extend this with the  *)
(* laws the specification must satisfy on every such input, and Emit hands *)
(* each input to the conformance driver.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, Json, IOUtils, TLC

Gen == JsonDeserialize(IOEnv.GEN)
Alphabet == Gen.alphabet
Contexts == Gen.contexts     \* << prefix, suffix >> pairs
MaxSymbols == Gen.max
Emitting == Gen.emit

VARIABLES ctx, s
vars == << ctx, s >>

Flat(q) == FoldLeft(LAMBDA acc, i : acc \o Alphabet[i], << >>, q)
Input == (Contexts[ctx][1] \o Flat(s)) \o Contexts[ctx][2]

Init == ctx \in 1..Len(Contexts) /\ s = << >>
Next == /\ Len(s) < MaxSymbols
        /\ \E a \in 1..Len(Alphabet) : s' = Append(s, a)
        /\ UNCHANGED ctx
Spec == Init /\ [][Next]_vars

Emit == Emitting => PrintT("G " \o ToJson(Input))
=============================================================================
