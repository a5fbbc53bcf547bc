------------------------------ MODULE Inflate ------------------------------
(***************************************************************************)
(* Raw DEFLATE (RFC 1951) as a function from bytes to bytes, and what an   *)
(* inflater with a bounded destination may answer.                         *)
(*                                                                         *)
(* Outcomes: "ok" (out holds the bytes), "bad" (truncated, reserved block  *)
(* type, wrong stored length, undefined symbol or code, distance before    *)
(* the start), "grey" (code length sets RFC 1951 rules out but decoders    *)
(* differ on: over-subscribed sets, too many codes).  q.inc records that   *)
(* an incomplete set was met, which a decoder may also refuse.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

LOCAL Pow2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536 >>

NBits(s) == 8 * Len(s)
BitAt(s, i) == (s[(i \div 8) + 1] \div Pow2[(i % 8) + 1]) % 2
(* n bits at position i, least significant first; the caller checks the range *)
RECURSIVE BitsAt(_, _, _)
BitsAt(s, i, n) == IF n = 0 THEN 0 ELSE BitAt(s, i) + 2 * BitsAt(s, i + 1, n - 1)
Have(s, i, n) == i + n <= NBits(s)

MaxBits == 15
(* canonical code of a sequence of lengths (symbol = index - 1) *)
Canonical(lens) ==
  LET cnt == [l \in 1..MaxBits |-> Cardinality({i \in 1..Len(lens) : lens[i] = l})]
      first[l \in 1..MaxBits] == IF l = 1 THEN 0 ELSE (first[l-1] + cnt[l-1]) * 2
      syms == [l \in 1..MaxBits |->
                 IF cnt[l] = 0 THEN << >>
                 ELSE SelectSeq([i \in 1..Len(lens) |-> IF lens[i] = l THEN i - 1 ELSE -1], LAMBDA x : x >= 0)]
      (* Kraft sum in units of 2^-15 *)
      left == FoldLeft(LAMBDA a, l : a - cnt[l] * Pow2[MaxBits - l + 1], Pow2[MaxBits + 1], [l \in 1..MaxBits |-> l])
  IN [cnt |-> cnt, first |-> [l \in 1..MaxBits |-> first[l]], syms |-> syms, left |-> left]

OverSub(c)    == c.left < 0
Incomplete(c) == c.left > 0

NoSym == [ok |-> FALSE, sym |-> -1, pos |-> 0]
RECURSIVE Sym(_, _, _, _, _)
Sym(c, s, pos, l, code) ==
  IF l > MaxBits \/ ~Have(s, pos, 1) THEN NoSym
  ELSE LET k == code * 2 + BitAt(s, pos) IN
       IF c.cnt[l] > 0 /\ k - c.first[l] < c.cnt[l] /\ k >= c.first[l]
       THEN [ok |-> TRUE, sym |-> c.syms[l][k - c.first[l] + 1], pos |-> pos + 1]
       ELSE Sym(c, s, pos + 1, l + 1, k)
NextSym(c, s, pos) == Sym(c, s, pos, 1, 0)

FixedLit  == Canonical([i \in 1..288 |-> IF i <= 144 THEN 8 ELSE IF i <= 256 THEN 9 ELSE IF i <= 280 THEN 7 ELSE 8])
FixedDist == Canonical([i \in 1..32 |-> 5])

LenBase == << 3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258 >>
LenBits == << 0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0 >>
DistBase == << 1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577 >>
DistBits == << 0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13 >>
ClenOrder == << 16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15 >>

St(v, pos, out, inc) == [v |-> v, pos |-> pos, out |-> out, inc |-> inc]
Bad(q) == [q EXCEPT !.v = "bad"]

CopyBack(out, dist, n) == FoldLeft(LAMBDA o, k : Append(o, o[Len(o) + 1 - dist]), out, [i \in 1..n |-> i])

(* One literal/length step of a compressed block; cap bounds the output *)
RECURSIVE Codes(_, _, _, _, _)
Codes(s, q, lit, dist, cap) ==
  IF Len(q.out) > cap THEN q
  ELSE LET a == NextSym(lit, s, q.pos) IN
  IF ~a.ok THEN Bad(q)
  ELSE IF a.sym < 256 THEN Codes(s, [q EXCEPT !.pos = a.pos, !.out = Append(@, a.sym)], lit, dist, cap)
  ELSE IF a.sym = 256 THEN [q EXCEPT !.pos = a.pos]
  ELSE IF a.sym > 285 THEN Bad(q)
  ELSE LET lx == LenBits[a.sym - 256] IN
  IF ~Have(s, a.pos, lx) THEN Bad(q)
  ELSE LET n == LenBase[a.sym - 256] + BitsAt(s, a.pos, lx)
           d == NextSym(dist, s, a.pos + lx) IN
  IF ~d.ok \/ d.sym > 29 THEN Bad(q)
  ELSE LET dx == DistBits[d.sym + 1] IN
  IF ~Have(s, d.pos, dx) THEN Bad(q)
  ELSE LET far == DistBase[d.sym + 1] + BitsAt(s, d.pos, dx) IN
  IF far > Len(q.out) THEN Bad(q)
  ELSE Codes(s, [q EXCEPT !.pos = d.pos + dx, !.out = CopyBack(@, far, n)], lit, dist, cap)

(* the code length sequence of a dynamic block: [ok, lens, pos] *)
RECURSIVE Lens(_, _, _, _, _)
Lens(s, c, n, lens, pos) ==
  IF Len(lens) = n THEN [ok |-> TRUE, lens |-> lens, pos |-> pos]
  ELSE LET a == NextSym(c, s, pos)
           bad == [ok |-> FALSE, lens |-> lens, pos |-> pos]
           rep(v, bits, base) ==
             IF ~Have(s, a.pos, bits) THEN bad
             ELSE LET k == base + BitsAt(s, a.pos, bits) IN
                  IF Len(lens) + k > n THEN bad
                  ELSE Lens(s, c, n, lens \o [i \in 1..k |-> v], a.pos + bits)
       IN IF ~a.ok THEN bad
          ELSE IF a.sym < 16 THEN Lens(s, c, n, Append(lens, a.sym), a.pos)
          ELSE IF a.sym = 16 THEN (IF lens = << >> THEN bad ELSE rep(lens[Len(lens)], 2, 3))
          ELSE IF a.sym = 17 THEN rep(0, 3, 3)
          ELSE rep(0, 7, 11)

Dynamic(s, q, cap) ==
  IF ~Have(s, q.pos, 14) THEN Bad(q)
  ELSE LET hlit == BitsAt(s, q.pos, 5) + 257
           hdist == BitsAt(s, q.pos + 5, 5) + 1
           hclen == BitsAt(s, q.pos + 10, 4) + 4
           p0 == q.pos + 14
       IN IF ~Have(s, p0, 3 * hclen) THEN Bad(q)
          ELSE LET raw == [i \in 1..hclen |-> BitsAt(s, p0 + 3 * (i - 1), 3)]
                   clen == [j \in 1..19 |->
                     LET k == CHOOSE k \in 1..19 : ClenOrder[k] = j - 1 IN IF k <= hclen THEN raw[k] ELSE 0]
                   cc == Canonical(clen)
               IN IF OverSub(cc) THEN [q EXCEPT !.v = "grey"]
                  ELSE LET r == Lens(s, cc, hlit + hdist, << >>, p0 + 3 * hclen) IN
                  IF ~r.ok THEN Bad(q)
                  ELSE LET lit == Canonical(SubSeq(r.lens, 1, hlit))
                           dist == Canonical(SubSeq(r.lens, hlit + 1, hlit + hdist))
                           inc == q.inc \/ Incomplete(cc) \/ Incomplete(lit)
                                  \/ (Incomplete(dist) /\ Cardinality({i \in 1..hdist : r.lens[hlit + i] > 0}) > 1)
                                  \/ r.lens[257] = 0
                       IN IF OverSub(lit) \/ OverSub(dist) \/ hlit > 286 \/ hdist > 30
                          THEN [q EXCEPT !.v = "grey"]
                          ELSE Codes(s, [q EXCEPT !.pos = r.pos, !.inc = inc], lit, dist, cap)

Stored(s, q) ==
  LET p == ((q.pos + 7) \div 8) * 8 IN
  IF ~Have(s, p, 32) THEN Bad(q)
  ELSE LET len == BitsAt(s, p, 16)
           nlen == BitsAt(s, p + 16, 16)
           o == (p \div 8) + 4
       IN IF len + nlen # 65535 \/ o + len > Len(s) THEN Bad(q)
          ELSE [q EXCEPT !.pos = (o + len) * 8, !.out = @ \o SubSeq(s, o + 1, o + len)]

RECURSIVE Blocks(_, _, _)
Blocks(s, q, cap) ==
  IF ~Have(s, q.pos, 3) THEN Bad(q)
  ELSE LET fin == BitAt(s, q.pos)
           typ == BitsAt(s, q.pos + 1, 2)
           q1 == [q EXCEPT !.pos = @ + 3]
           q2 == CASE typ = 0 -> Stored(s, q1)
                   [] typ = 1 -> Codes(s, q1, FixedLit, FixedDist, cap)
                   [] typ = 2 -> Dynamic(s, q1, cap)
                   [] OTHER -> Bad(q1)
       IN IF q2.v # "ok" \/ fin = 1 \/ Len(q2.out) > cap THEN q2 ELSE Blocks(s, q2, cap)

(* decoding stops as soon as the output exceeds cap *)
InflateRaw(s, cap) == Blocks(s, St("ok", 0, << >>, FALSE), cap)

(* may an inflater with capacity cap answer r bytes `out`? *)
InflateAllowed(s, cap, r, out) ==
  LET q == InflateRaw(s, cap)
      refused == r = 0
      exact == r = Len(q.out) /\ out = q.out
  IN CASE Len(q.out) > cap -> refused \/ (q.v = "grey" /\ r <= cap)
       [] q.v = "grey" -> r >= 0 /\ r <= cap
       [] q.v = "bad" -> refused
       [] OTHER -> exact \/ (q.inc /\ refused)

InflateBranch(s, cap) ==
  LET q == InflateRaw(s, cap) IN
  IF Len(q.out) > cap THEN "toobig" ELSE IF q.v = "ok" /\ q.inc THEN "ok-incomplete" ELSE q.v
=============================================================================
