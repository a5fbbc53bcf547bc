-------------------------------- MODULE MCNfc -------------------------------
(* Laws of normalisation (UAX #15) on every enumerated sequence.            *)
EXTENDS Enum, Nfc

N(x) == Nfc(Std, x)
D(x) == Nfd(Std, x)
Idempotent == N(N(Input)) = N(Input) /\ D(D(Input)) = D(Input)
Equivalent == D(N(Input)) = D(Input) /\ N(D(Input)) = N(Input)
(* canonical order: no mark of a lower class directly after a higher one *)
Ordered(x) == \A i \in 1..(Len(x) - 1) : Ccc(Std, x[i+1]) = 0 \/ Ccc(Std, x[i]) <= Ccc(Std, x[i+1])
OrderedBoth == Ordered(D(Input)) /\ Ordered(N(Input))
(* nothing composable is left: every starter with an unblocked partner has been composed *)
FullyComposed ==
  LET x == N(Input) IN
  \A i \in 1..Len(x) : \A j \in (i+1)..Len(x) :
    (/\ Ccc(Std, x[i]) = 0
     /\ \A m \in (i+1)..(j-1) : Ccc(Std, x[m]) # 0 /\ Ccc(Std, x[m]) < Ccc(Std, x[j]))
    => ComposePair(Std, x[i], x[j]) = -1
(* piecewise evaluation is the same *)
ASSUME InertStarters \cap Seconds = {}
ASSUME \A c \in InertStarters : Ccc(Std, c) = 0 /\ Decomp(Std, c) = << >>
Piecewise == LET y == Input \o << 97, 19968 >> \o Input IN \A k \in 1..2 : NfcByPieces(Std, y, k) = NfcWhole(Std, y)
(* normalisation distributes over a boundary before an inert starter *)
Boundary == N(Append(Input, 97)) = Append(N(Input), 97)
=============================================================================
