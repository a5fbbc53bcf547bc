------------------------------ MODULE Lifetime ------------------------------
(***************************************************************************)
(* The life of a process that uses the library, from the first initialiser *)
(* to the last destructor, and the calls it may make on the way: before    *)
(* the library's own initialisers have run, before main, in main, in other *)
(* threads, in the destructors of thread-local objects, in a forked child, *)
(* in exit handlers, after the library's own static objects are gone.      *)
(*                                                                         *)
(* What the library keeps is one block of memory, set up by the first call *)
(* that needs it.  Shipped, it belongs to the process: nothing frees it.   *)
(* The machine can also be given other owners (a static object, the thread *)
(* that set it up) and other set-up times (the library's initialisers);    *)
(* each of these breaks Right, which the checks confirm.                   *)
(*                                                                         *)
(* Positions of calls, in the order of time:                               *)
(*   1 earliest initialiser   2 static initialiser  3 main                 *)
(*   4 another thread         5 that thread's thread-local destructor      *)
(*   6 a forked child of main 7 main's thread-local destructor             *)
(*   8 a thread still running while exit handlers run                      *)
(*   9 exit handler           10 last destructor of the process            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC

Gen == JsonDeserialize(IOEnv.GEN)
Pool == Gen.pool          \* kinds of calls
Needs == Gen.needs        \* 0/1 per kind: are the tables consulted?
MaxCalls == Gen.max
Owner == Gen.owner        \* "process" as shipped; "static", "thread"
SetUp == Gen.setup        \* "lazy" as shipped; "initialiser"
Scratch == Gen.scratch    \* "none" as shipped; "static", "thread": an object every call uses
Emitting == Gen.emit

Last == 10
Names == << "earliest", "initialiser", "main", "thread", "thread-exit", "child", "main-thread-exit", "thread-at-exit", "exit-handler", "last" >>
(* the thread a position runs on *)
Thread(p) == CASE p \in {4, 5} -> 2 [] p = 8 -> 3 [] OTHER -> 1

VARIABLES at,      \* the position reached
          tables,  \* "uninit", "ready", "gone"
          by,      \* the thread that set the tables up, 0: the initialiser
          parent,  \* tables of the parent, while in a forked child
          hist     \* << position, call, answer >>
vars == << at, tables, by, parent, hist >>

Init == at = 1 /\ tables = "uninit" /\ by = 0 /\ parent = "uninit" /\ hist = << >>

(* the library's initialisers run between 1 and 2, its static destructors between 9 and 10,
   thread-local objects of a thread are destroyed before the last calls of that thread *)
Ends(p) == CASE p = 4 -> {"thread2"} [] p = 6 -> {"thread1"} [] p = 9 -> {"statics"} [] OTHER -> {}
Dies(p) == \/ Owner = "static" /\ "statics" \in Ends(p)
           \/ Owner = "thread" /\ by = 2 /\ p = 4
           \/ Owner = "thread" /\ by = 1 /\ p = 6

Advance ==
  /\ at < Last
  /\ at' = at + 1
  /\ LET t0 == IF at = 6 THEN parent ELSE tables          \* the child is gone, the parent goes on
         t1 == IF SetUp = "initialiser" /\ at = 1 THEN "ready" ELSE t0
     IN tables' = IF t1 = "ready" /\ Dies(at) THEN "gone" ELSE t1
  /\ parent' = IF at + 1 = 6 THEN (IF tables = "ready" /\ Dies(at) THEN "gone" ELSE tables) ELSE parent
  /\ UNCHANGED << by, hist >>

(* an object every call uses: a static one exists from the initialisers to the static destructors if
   it has to be constructed; a thread's own one until its thread-local objects are destroyed *)
ScratchThere(p) == CASE Scratch = "static" -> p \in 2..9
                     [] Scratch = "thread" -> p \in {1, 2, 3, 4, 6, 8}
                     [] OTHER -> TRUE
Prepared == IF tables = "uninit" /\ SetUp = "lazy" THEN "ready" ELSE tables
Call(c) ==
  /\ Len(hist) < MaxCalls
  /\ LET t == IF Needs[c] = 1 THEN Prepared ELSE tables
         right == ScratchThere(at) /\ (Needs[c] = 1 => t = "ready")
     IN /\ tables' = t
        /\ by' = IF t # tables THEN Thread(at) ELSE by
        /\ hist' = Append(hist, << at, c, IF right THEN "value" ELSE "wrong" >>)
  /\ UNCHANGED << at, parent >>
Next == Advance \/ \E c \in 1..Pool : Call(c)
Spec == Init /\ [][Next]_vars

(* every call is answered as if it were the only one ever made *)
Right == \A i \in 1..Len(hist) : hist[i][3] = "value"
Ordered == \A i, j \in 1..Len(hist) : i < j => hist[i][1] <= hist[j][1]
(* a child's preparation is its own *)
Own == at = 7 /\ tables = "ready" => \E i \in 1..Len(hist) : hist[i][1] # 6 /\ Needs[hist[i][2]] = 1
Emit == (Emitting /\ at = Last /\ Len(hist) = MaxCalls) =>
          PrintT("G " \o ToJson([i \in 1..Len(hist) |-> << hist[i][1], hist[i][2] >>]))
=============================================================================
