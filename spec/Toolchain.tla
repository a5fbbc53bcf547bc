------------------------------ MODULE Toolchain -----------------------------
(***************************************************************************)
(* Histories of the table tools: regenerate the mapping tables from file   *)
(* "M1", its sibling "M1s" (another meaning, tables of the same sizes),    *)
(* "M2", or "MX", which does not fit and is refused; regenerate the        *)
(* identifier tables from "I1" or its sibling "I1s"; repack, "P".          *)
(* Every history is emitted and carried out on a copy of the tree;         *)
(* TableTrace decides what the library built afterwards must mean.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT Depth
VARIABLES hist, map, ids
vars == << hist, map, ids >>
MTools == {"M1", "M1s", "M2"}
ITools == {"I1", "I1s"}
Tools == MTools \cup ITools \cup {"MX", "P"}

Init == hist = << >> /\ map = "shipped" /\ ids = "shipped"
Do(c) == /\ hist' = Append(hist, c)
         /\ map' = IF c \in MTools THEN c ELSE map
         /\ ids' = IF c \in ITools THEN c ELSE ids
Next == Len(hist) < Depth /\ \E c \in Tools : Do(c)
Spec == Init /\ [][Next]_vars

(* the meaning depends on the last file of each kind only *)
LastOf(S, d) == LET p == { i \in 1..Len(hist) : hist[i] \in S }
                IN  IF p = {} THEN d ELSE hist[CHOOSE i \in p : \A j \in p : j <= i]
LastWins == map = LastOf(MTools, "shipped") /\ ids = LastOf(ITools, "shipped")
(* refusal and repacking are no-ops, tools of different kinds commute *)
NoOps == [][(hist'[Len(hist')] \in {"P", "MX"} => map' = map /\ ids' = ids)
            /\ (hist'[Len(hist')] \in MTools => ids' = ids)
            /\ (hist'[Len(hist')] \in ITools => map' = map)]_vars
Emit == PrintT("G " \o ToJson(hist))
=============================================================================
