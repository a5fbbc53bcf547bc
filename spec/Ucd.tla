-------------------------------- MODULE Ucd --------------------------------
(***************************************************************************)
(* The Unicode 17.0 data the specification is stated over.                 *)
(*                                                                         *)
(* data/ucd.json is built (spec/data/gen) from two implementations of the  *)
(* standard that are independent of ada-url/idna: Go 1.27's x/net/idna,    *)
(* x/text/unicode/{norm,bidi} and Node 22's ICU 78.                        *)
(*                                                                         *)
(* Every operator that reads normalisation, Bidi, joining or combining     *)
(* data takes a profile p, the set of named deviations in force as a       *)
(* record of booleans:                                                     *)
(*    p.nfc   KF1  normalisation data of Unicode 15                        *)
(*    p.mark  KF2  combining-mark data behind Unicode 17                   *)
(*    p.bidi  KF3  Bidi classes behind Unicode 17                          *)
(*    p.join  KF4  joining types behind Unicode 17                         *)
(*    p.dom   KF5  Bidi rule applied label by label (see Idna)             *)
(* KF1..KF4 change the data only at the code points enumerated in          *)
(* data/stale.json.  Std is the standard, Built the shipped library.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Std   == [nfc |-> FALSE, mark |-> FALSE, bidi |-> FALSE, join |-> FALSE, dom |-> FALSE]
Built == [nfc |-> TRUE, mark |-> TRUE, bidi |-> TRUE, join |-> TRUE, dom |-> TRUE]
Profiles == [nfc : BOOLEAN, mark : BOOLEAN, bidi : BOOLEAN, join : BOOLEAN, dom : BOOLEAN]

DataDir == IOEnv.SPEC_DATA

LOCAL U == JsonDeserialize(DataDir \o "/ucd.json")
LOCAL ClsIdx  == U.clsIdx
LOCAL ClsBlk  == U.clsBlk
LOCAL Cls     == U.cls
LOCAL MapIdx  == U.mapIdx
LOCAL MapBlk  == U.mapBlk
LOCAL MapSeqs == U.maps
LOCAL DecIdx  == U.decIdx
LOCAL DecBlk  == U.decBlk
LOCAL Decs    == U.decs
LOCAL CompIdx == U.compIdx
LOCAL CompBlk == U.compBlk
LOCAL Comps   == U.comps

MaxCP == 1114111

(* Code units travel as 32-bit integers; values above 2^31-1 arrive negative. *)
InRange(c)     == c >= 0 /\ c <= MaxCP
IsSurrogate(c) == c >= 55296 /\ c <= 57343
IsScalar(c)    == InRange(c) /\ ~IsSurrogate(c)

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

(* class id of a code point, and the attributes of a class *)
NClasses   == Len(Cls)
ClassOf(c) == ClsBlk[ClsIdx[(c \div 256) + 1]][(c % 256) + 1]
ClassAttr(k, i) == Cls[k][i]
LOCAL Attr(c, i) == Cls[ClassOf(c)][i]

(* UTS #46 (nontransitional, UseSTD3ASCIIRules = false) *)
Disallowed == 0
Valid      == 1
Mapped     == 2   \* includes "ignored": mapped to the empty sequence
Status(c)  == IF InRange(c) THEN Attr(c, 1) ELSE Disallowed
MapSeq(c)  == MapSeqs[MapBlk[MapIdx[(c \div 256) + 1]][(c % 256) + 1]]

(* canonical combining class, Bidi class, joining type, General_Category=M *)
Ccc(p, c)  == IF InRange(c) THEN Attr(c, IF p.nfc THEN 8 ELSE 2) ELSE 0
Bidi(p, c) == IF InRange(c) THEN Attr(c, IF p.bidi THEN 9 ELSE 3) ELSE 98
Join(p, c) == IF InRange(c) THEN Attr(c, IF p.join THEN 10 ELSE 4) ELSE 0
Mark(p, c) == InRange(c) /\ Attr(c, IF p.mark THEN 11 ELSE 5) = 1

(* ECMA-262 IdentifierStart / IdentifierPart without escapes *)
IdStart(c)    == IsScalar(c) /\ Attr(c, 6) = 1
IdContinue(c) == IsScalar(c) /\ Attr(c, 7) = 1

(* Bidi classes *)
BL == 0  BR == 1  BEN == 2  BES == 3  BET == 4  BAN == 5  BCS == 6
BON == 10  BBN == 11  BNSM == 12  BAL == 13
(* joining types *)
JL == 1  JD == 2  JT == 3  JR == 4

(* canonical decomposition, fully expanded; << >> when there is none.      *)
(* Hangul syllables are algorithmic (see Nfc).                             *)
Decomp(p, c) ==
  IF ~InRange(c) THEN << >>
  ELSE LET k == DecBlk[DecIdx[(c \div 256) + 1]][(c % 256) + 1] IN
       IF k = 0 THEN << >>
       ELSE IF p.nfc /\ Decs[k].stale = 1 THEN << >>
       ELSE Decs[k].d

(* primary composite of the pair (a, b), or -1 *)
Compose(p, a, b) ==
  IF ~InRange(a) THEN -1
  ELSE LET k == CompBlk[CompIdx[(a \div 256) + 1]][(a % 256) + 1] IN
       IF k = 0 THEN -1
       ELSE LET L == Comps[k]
                R == {i \in 1..Len(L) : L[i][1] = b /\ (~p.nfc \/ L[i][3] = 0)}
            IN IF R = {} THEN -1 ELSE L[CHOOSE i \in R : TRUE][2]

(* what can be the second of a pair that composes *)
Seconds == UNION {{Comps[k][i][1] : i \in 1..Len(Comps[k])} : k \in 1..Len(Comps)}

(* Operations that distribute over concatenation at certain places are evaluated   *)
(* piece by piece on long sequences; the MC* modules state each of these laws.      *)
LongFrom == 256
RECURSIVE CatRange(_, _, _)
CatRange(ss, lo, hi) ==
  IF lo > hi THEN << >> ELSE IF lo = hi THEN ss[lo]
  ELSE LET m == (lo + hi) \div 2 IN CatRange(ss, lo, m) \o CatRange(ss, m + 1, hi)
Cat(ss) == CatRange(ss, 1, Len(ss))
(* pieces of at least k elements, each but the first beginning with an element for which At holds *)
Pieces(s, At(_), k) ==
  LET r == FoldLeftDomain(LAMBDA q, i : IF i - q.last >= k /\ At(s[i]) THEN [cuts |-> Append(q.cuts, i), last |-> i] ELSE q,
                          [cuts |-> << 1 >>, last |-> 1], s)
      N == Len(r.cuts)
  IN [j \in 1..N |-> SubSeq(s, r.cuts[j], IF j < N THEN r.cuts[j + 1] - 1 ELSE Len(s))]

(* exact byte-level helpers *)
AsciiLower(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
IsAscii(s)    == \A i \in 1..Len(s) : s[i] >= 0 /\ s[i] < 128
=============================================================================
