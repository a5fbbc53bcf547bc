-------------------------------- MODULE MCMap -------------------------------
EXTENDS Enum, Idna
(* mapping acts element by element, fails as a whole, and its result maps to itself *)
MapPointwise ==
  LET r == MapAll(Input) IN
  IF \E i \in 1..Len(Input) : ~MapAll(<< Input[i] >>).ok THEN ~r.ok /\ r.out = << >>
  ELSE r.ok /\ r.out = FoldLeft(LAMBDA a, x : a \o MapAll(<< x >>).out, << >>, Input)
(* after normalisation: the mapping of one element may decompose differently *)
Closed == MapAll(Input).ok => MapStable(Nfc(Std, MapAll(Input).out))
=============================================================================
