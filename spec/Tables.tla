------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* How the mapping data file becomes tables, and how the tables are read.  *)
(*                                                                         *)
(* A file says of every code point below Top whether it is valid "v",      *)
(* disallowed "d", ignored "i" or mapped to a text (a sequence).  The      *)
(* generator collects the texts, cuts the code points below LowEnd into    *)
(* blocks, keeps one copy of each distinct block (as a bit set if it holds *)
(* only "v" and "d") and notes for each block where its copy is.  What is  *)
(* above LowEnd is one range of ignored code points.  Index words have the *)
(* numbers below Flag; a number with the flag set means a bit set.         *)
(*                                                                         *)
(* Law: unless the generator refuses the file, the reader finds for every  *)
(* code point what the file says.  Guard is the capacity check on index    *)
(* words; without it the law does not hold (the generator's defect,        *)
(* repaired).                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Block, LowBlocks, HighSize, Flag, TextCap, Guard, Emitting

LowTop == Block * LowBlocks
Top    == LowTop + HighSize
Stats  == {"v", "d", "i", "a", "ab"}           \* "a", "ab": mapped
Text(st) == CASE st = "i" -> << >> [] st = "a" -> << 1 >> [] st = "ab" -> << 1, 2 >>
VALID == 1000  DISALLOWED == 1001

VARIABLES file, pc, texts, where, low, h0, h1, bi, stage1, mixed, bools
vars == << file, pc, texts, where, low, h0, h1, bi, stage1, mixed, bools >>

(* what is above LowTop is of the shape Unicode publishes: one range of ignored ones, or nothing *)
FileSet == { [c \in 0..Top-1 |-> IF c < LowTop THEN l[c] ELSE h[c]] :
               l \in [0..LowTop-1 -> Stats],
               h \in { x \in [LowTop..Top-1 -> {"d", "i"}] : \A i, j \in LowTop..Top-1 : x[i] = "i" /\ x[j] = "i" /\ i <= j => \A k \in i..j : x[k] = "i" } }

Init == /\ file \in FileSet
        /\ pc = "texts" /\ texts = << 0 >> /\ where = [st \in {"i"} |-> 0]
        /\ low = 0 /\ h0 = 0 /\ h1 = 0 /\ bi = 0
        /\ stage1 = << >> /\ mixed = << >> /\ bools = << >>

Used == { file[c] : c \in 0..Top-1 } \ {"v", "d", "i"}

(* one text after the other, in any order, each ended by 0 *)
AddText == /\ pc = "texts"
           /\ \E st \in Used \ DOMAIN where :
                /\ where' = [x \in DOMAIN where \cup {st} |-> IF x = st THEN Len(texts) ELSE where[x]]
                /\ texts' = texts \o Text(st) \o << 0 >>
           /\ UNCHANGED << file, pc, low, h0, h1, bi, stage1, mixed, bools >>

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Measure == /\ pc = "texts" /\ Used \subseteq DOMAIN where
           /\ LET hi  == { c \in LowTop..Top-1 : file[c] = "i" }
                  s   == IF hi = {} THEN Top ELSE MinOf(hi)
                  act == { c \in 0..s-1 : file[c] # "d" }
              IN  /\ h0' = s
                  /\ h1' = IF hi = {} THEN Top ELSE MaxOf(hi) + 1
                  /\ low' = IF act = {} THEN Block ELSE (MaxOf(act) \div Block + 1) * Block
           /\ pc' = IF Len(texts) > TextCap THEN "refused" ELSE "blocks"
           /\ UNCHANGED << file, texts, where, bi, stage1, mixed, bools >>

Word(c) == IF c < Top THEN (CASE file[c] = "v" -> VALID [] file[c] = "d" -> DISALLOWED [] OTHER -> where[file[c]])
                      ELSE DISALLOWED
BlockOf(b) == [k \in 1..Block |-> Word(b * Block + k - 1)]

PutBlock == /\ pc = "blocks" /\ bi * Block < low
            /\ LET b == BlockOf(bi)
                   bool == \A k \in 1..Block : b[k] \in {VALID, DISALLOWED}
                   at  == { i \in 0..Len(mixed) - Block : (i \div Block) * Block = i /\ SubSeq(mixed, i + 1, i + Block) = b }
                   bat == { i \in 0..Len(bools)-1 : bools[i + 1] = b }
               IN  IF bool
                   THEN /\ bools' = IF bat = {} THEN Append(bools, b) ELSE bools
                        /\ stage1' = Append(stage1, Flag + (IF bat = {} THEN Len(bools) ELSE MinOf(bat)))
                        /\ UNCHANGED << mixed, pc >>
                   ELSE IF Guard /\ at = {} /\ Len(mixed) >= Flag
                   THEN pc' = "refused" /\ UNCHANGED << bools, mixed, stage1 >>
                   ELSE /\ mixed' = IF at = {} THEN mixed \o b ELSE mixed
                        /\ stage1' = Append(stage1, IF at = {} THEN Len(mixed) ELSE MinOf(at))
                        /\ UNCHANGED << bools, pc >>
            /\ bi' = bi + 1
            /\ UNCHANGED << file, texts, where, low, h0, h1 >>

Finish == /\ pc = "blocks" /\ bi * Block >= low
          /\ pc' = "done"
          /\ UNCHANGED << file, texts, where, low, h0, h1, bi, stage1, mixed, bools >>

Next == AddText \/ Measure \/ PutBlock \/ Finish \/ (pc \in {"done", "refused"} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Off(c) == c - (c \div Block) * Block

(* ------------------------------------------------------------ the reader *)
Read(c) ==
  LET w == IF c < low
           THEN LET r == stage1[c \div Block + 1]
                IN  IF r >= Flag THEN bools[r - Flag + 1][Off(c) + 1] ELSE mixed[r + Off(c) + 1]
           ELSE IF c >= h0 /\ c < h1 THEN 0 ELSE DISALLOWED
      RECURSIVE Get(_)
      Get(i) == IF texts[i] = 0 THEN << >> ELSE << texts[i] >> \o Get(i + 1)
  IN  CASE w = VALID -> "v" [] w = DISALLOWED -> "d" [] OTHER -> Get(w + 1)

Meaning(c) == IF file[c] \in {"v", "d"} THEN file[c] ELSE Text(file[c])

(* every word written so far can be read back *)
Readable(c) ==
  LET r == stage1[c \div Block + 1]
  IN  IF r >= Flag THEN r - Flag + 1 \in 1..Len(bools) ELSE r + Block <= Len(mixed)

Lossless == /\ pc = "done" => \A c \in 0..Top-1 : (c < low => Readable(c)) /\ Read(c) = Meaning(c)
            /\ pc = "blocks" => \A c \in 0..bi * Block - 1 : c < Top => Readable(c) /\ Read(c) = Meaning(c)
(* the generator refuses only what does not fit *)
Needed == { b \in { BlockOf(k) : k \in 0..low \div Block - 1 } : \E k \in 1..Block : b[k] \notin {VALID, DISALLOWED} }
RefusesOnlyOverflow == pc = "refused" => Len(texts) > TextCap \/ Cardinality(Needed) * Block > Flag
Small == Len(mixed) <= LowTop /\ Len(bools) <= LowBlocks /\ Len(stage1) <= LowBlocks + 1
Terminates == <>(pc \in {"done", "refused"})

Emit == (Emitting /\ pc = "texts" /\ texts = << 0 >> /\ \A c \in LowTop..Top-1 : file[c] = "d") => PrintT("G " \o ToJson([i \in 1..LowTop |-> file[i - 1]]))
=============================================================================
