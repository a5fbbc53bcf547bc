------------------------------ MODULE Punycode ------------------------------
(***************************************************************************)
(* RFC 3492 Punycode with the IDNA parameters: decoder, encoder.           *)
(* Digits are lower case (the pipeline maps before it decodes); a decoded  *)
(* value beginning "xn--" is refused (whatwg/url issue 803).               *)
(***************************************************************************)
EXTENDS Ucd

PBase == 36  PTMin == 1  PTMax == 26  PSkew == 38  PDamp == 700  PBias0 == 72  PN0 == 128
MaxInt == 2147483647

Digit(b) == IF b >= 97 /\ b <= 122 THEN b - 97 ELSE IF b >= 48 /\ b <= 57 THEN b - 22 ELSE -1
DigitChar(d) == IF d < 26 THEN d + 97 ELSE d + 22

RECURSIVE AdaptLoop(_, _)
AdaptLoop(d, k) == IF d > ((PBase - PTMin) * PTMax) \div 2
                   THEN AdaptLoop(d \div (PBase - PTMin), k + PBase)
                   ELSE k + ((PBase - PTMin + 1) * d) \div (d + PSkew)
Adapt(delta, n, first) ==
  LET d == IF first THEN delta \div PDamp ELSE delta \div 2 IN AdaptLoop(d + d \div n, 0)

Threshold(k, bias) == IF k <= bias THEN PTMin ELSE IF k >= bias + PTMax THEN PTMax ELSE k - bias

Fail == [ok |-> FALSE, out |-> << >>]

LastDelim(s) == SelectLastInSeq(s, LAMBDA b : b = 45)   \* 0 if there is none

(* The decoder digit by digit.  A number is the sum i of digit * w; it ends with a    *)
(* digit below its threshold, and then says where the next code point goes and by how  *)
(* much it exceeds the last one.  Refused: a bad digit, an intermediate above 2^31-1.  *)
InsertAt0(s, k, c) == SubSeq(s, 1, k) \o << c >> \o SubSeq(s, k + 1, Len(s))

DecStart(basic) == [ok |-> TRUE, mid |-> FALSE, n |-> PN0, i |-> 0, from |-> 0, w |-> 1, k |-> PBase, bias |-> PBias0, out |-> basic]
DecStep(q, b) ==
  LET d == Digit(b)
      t == Threshold(q.k, q.bias)
  IN IF ~q.ok THEN q
     ELSE IF d < 0 THEN [q EXCEPT !.ok = FALSE]
     ELSE IF d > (MaxInt - q.i) \div q.w THEN [q EXCEPT !.ok = FALSE]
     ELSE LET i2 == q.i + d * q.w IN
       IF d >= t
       THEN IF q.w > MaxInt \div (PBase - t) THEN [q EXCEPT !.ok = FALSE]
            ELSE [q EXCEPT !.i = i2, !.w = @ * (PBase - t), !.k = @ + PBase, !.mid = TRUE]
       ELSE LET m == Len(q.out) + 1
                n2 == q.n + i2 \div m
                at == i2 % m
            IN IF i2 \div m > MaxInt - q.n THEN [q EXCEPT !.ok = FALSE]
               ELSE [ok |-> TRUE, mid |-> FALSE, n |-> n2, i |-> at + 1, from |-> at + 1, w |-> 1, k |-> PBase,
                     bias |-> Adapt(i2 - q.from, m, q.from = 0), out |-> InsertAt0(q.out, at, n2)]

HasAcePrefix(s) == Len(s) >= 4 /\ s[1] = 120 /\ s[2] = 110 /\ s[3] = 45 /\ s[4] = 45

(* bytes -> [ok, out] *)
PunyDecode(s) ==
  LET d == LastDelim(s) IN
  IF d = 1 THEN Fail
  ELSE LET basic == SubSeq(s, 1, Max2(d - 1, 0)) IN
       IF ~IsAscii(basic) THEN Fail
       ELSE LET q == FoldLeft(DecStep, DecStart(basic), SubSeq(s, d + 1, Len(s))) IN
            IF ~q.ok \/ q.mid \/ HasAcePrefix(q.out) THEN Fail ELSE [ok |-> TRUE, out |-> q.out]

RECURSIVE EncDigits(_, _, _)
EncDigits(q, k, bias) ==
  LET t == Threshold(k, bias) IN
  IF q < t THEN << DigitChar(q) >>
  ELSE << DigitChar(t + ((q - t) % (PBase - t))) >> \o EncDigits((q - t) \div (PBase - t), k + PBase, bias)

(* one pass over the input for the code point value m *)
EncPass(s, m, st) ==
  FoldLeft(LAMBDA q, c :
    IF ~q.ok THEN q
    ELSE IF c < m THEN (IF q.d = MaxInt THEN [q EXCEPT !.ok = FALSE] ELSE [q EXCEPT !.d = @ + 1])
    ELSE IF c = m THEN [ok |-> TRUE, out |-> IF Len(q.out) < LongFrom THEN q.out \o EncDigits(q.d, PBase, q.bias) ELSE EncDigits(q.d, PBase, q.bias),
                        done |-> IF Len(q.out) < LongFrom THEN q.done ELSE Append(q.done, q.out),   \* the output so far, in pieces
                        bias |-> Adapt(q.d, q.h + 1, q.h = q.b), d |-> 0, h |-> q.h + 1, b |-> q.b]
    ELSE q, st, s)

RECURSIVE EncLoop(_, _, _, _)
EncLoop(s, todo, n, st) ==
  IF ~st.ok THEN Fail
  ELSE IF todo = << >> THEN [ok |-> TRUE, out |-> Cat(st.done) \o st.out]
  ELSE LET m == Head(todo) IN
       IF m - n > (MaxInt - st.d) \div (st.h + 1) THEN Fail
       ELSE LET st2 == EncPass(s, m, [st EXCEPT !.d = @ + (m - n) * (st.h + 1)])
            IN IF st2.ok THEN EncLoop(s, Tail(todo), m + 1, [st2 EXCEPT !.d = @ + 1]) ELSE Fail

PunyEncode(s) ==
  IF \E i \in 1..Len(s) : ~IsScalar(s[i]) THEN Fail
  ELSE LET basic == SelectSeq(s, LAMBDA c : c < 128)
           b == Len(basic)
           todo == SetToSortSeq({s[i] : i \in 1..Len(s)} \ (0..127), <)
       IN EncLoop(s, todo, PN0,
            [ok |-> TRUE, done |-> << >>, out |-> basic \o (IF b > 0 THEN << 45 >> ELSE << >>),
             d |-> 0, bias |-> PBias0, h |-> b, b |-> b])
=============================================================================
