------------------------------- MODULE Session ------------------------------
(***************************************************************************)
(* A process using the library: a history of calls.  The only state the    *)
(* library may keep is whether its tables are prepared; the answer of a    *)
(* call is a function of its argument (and of the permanent outcome of     *)
(* preparation).  The machine makes that explicit and emits every bounded  *)
(* history for replay in one real process.                                 *)
(*                                                                         *)
(* Calls are indices into a pool given by the harness; needs[c] says       *)
(* whether call c consults the tables.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC

Gen == JsonDeserialize(IOEnv.GEN)
Pool == Gen.pool          \* number of calls in the pool
Needs == Gen.needs        \* 0/1 per call
MaxCalls == Gen.max
Faults == Gen.faults      \* may preparation fail?
Emitting == Gen.emit

VARIABLES tables,  \* "uninit", "ready", "failed"
          broken,  \* the environment's choice: preparation would fail
          hist     \* << call, answer >> so far; answer "value" or "failure"
vars == << tables, broken, hist >>

Init == tables = "uninit" /\ broken \in (IF Faults THEN BOOLEAN ELSE {FALSE}) /\ hist = << >>

Prepare(t) == IF t # "uninit" THEN t ELSE IF broken THEN "failed" ELSE "ready"
Call(c) ==
  /\ Len(hist) < MaxCalls
  /\ LET t == IF Needs[c] = 1 THEN Prepare(tables) ELSE tables IN
     /\ tables' = t
     /\ hist' = Append(hist, << c, IF Needs[c] = 1 /\ t = "failed" THEN "failure" ELSE "value" >>)
  /\ UNCHANGED broken
Next == \E c \in 1..Pool : Call(c)
Spec == Init /\ [][Next]_vars

(* the answer to a call does not depend on where in the history it stands *)
Pure == \A i, j \in 1..Len(hist) : hist[i][1] = hist[j][1] => hist[i][2] = hist[j][2]
(* preparation is permanent *)
Sticky == [][tables # "uninit" => tables' = tables]_tables
OnlyWhenNeeded == tables = "uninit" => \A i \in 1..Len(hist) : Needs[hist[i][1]] = 0
FailureIsTotal == tables = "failed" => \A i \in 1..Len(hist) : Needs[hist[i][1]] = 1 => hist[i][2] = "failure"
Emit == (Emitting /\ Len(hist) = MaxCalls) => PrintT("G " \o ToJson([b |-> broken, h |-> [i \in 1..Len(hist) |-> hist[i][1]]]))
=============================================================================
