----------------------------- MODULE MCForbidden ----------------------------
EXTENDS Enum, Idna
HasForbidden(b) == \E i \in 1..Len(b) : ForbiddenByte(b[i])
(* a property of the set of bytes: order and repetition do not matter *)
SetLaw == HasForbidden(Input) <=> \E x \in {Input[i] : i \in 1..Len(Input)} : HasForbidden(<< x >>)
(* the characters the host parser relies on as delimiters are all forbidden *)
Delimiters == \A x \in {35, 47, 58, 63, 64, 91, 92, 93, 37, 32, 0, 9, 10, 13} : ForbiddenByte(x)
Hostname == \A x \in (97..122) \cup (48..57) \cup {45, 46, 95} : ~ForbiddenByte(x)
=============================================================================
