------------------------------ MODULE TableInit -----------------------------
(***************************************************************************)
(* Setting up the shared tables on first use, by any number of threads     *)
(* without a lock.                                                         *)
(*                                                                         *)
(* One atomic cell says uninit / in progress / ready / failed.  The winner *)
(* of a compare-exchange allocates and fills the buffer, publishes the     *)
(* pointers (plain stores) and stores the outcome; the others read the     *)
(* cell until an outcome is there; every call then reads pointers and      *)
(* buffer (plain loads).                                                   *)
(*                                                                         *)
(* Memory is that of C++: the cell has a modification order, a load may    *)
(* return any write not older than what happens before it, and plain       *)
(* accesses must be ordered by happens-before (vector clocks), which only  *)
(* release stores read by acquire loads create.  The memory orders and the *)
(* order of the steps are parameters: the shipped protocol satisfies every *)
(* property, and each weakened one must violate some (the check demands    *)
(* both, so the properties are not vacuous).                               *)
(*                                                                         *)
(* With Sc = TRUE loads return the latest write; the complete schedules of *)
(* that machine are emitted and forced on the real code (harness/sched).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Gen == JsonDeserialize(IOEnv.GEN)
N        == Gen.threads
Calls    == Gen.calls        \* calls made by each thread
Faults   == Gen.faults       \* may allocation or decoding fail?
Sc       == Gen.sc           \* sequentially consistent loads; schedules are recorded
Emitting == Gen.emit
MaxSpins == Gen.spins        \* 0: unbounded; otherwise reads of one wait (Sc only)
P        == Gen.proto        \* the protocol: memory orders and shape
T == 1..N

Acq(o) == o \in {"acq", "acqrel", "sc"}
Rel(o) == o \in {"rel", "acqrel", "sc"}

VARIABLES
  env,     \* the environment's choice: "ok", "oom", "oom1" (the first allocation fails), "bad" (damaged data)
  pc,      \* per thread
  clk,     \* vector clock of each thread
  cell,    \* modification order of the atomic cell: sequence of [v, rel]
  seen,    \* per thread: index in the modification order it must not go behind
  ptr,     \* the published pointer: [set, w (clock of writes per thread), r (clock of reads per thread)]
  buf,     \* the buffer: [full, w, r]
  done,    \* per thread: answers of its finished calls
  allocs,  \* allocations tried, preparations begun
  spins,   \* per thread: reads in the present wait
  race,    \* a pair of unordered conflicting plain accesses has happened
  sched    \* thread of every step on the cell, in order (Sc only)
vars == << env, pc, clk, cell, seen, ptr, buf, done, allocs, spins, race, sched >>

Zero == [t \in T |-> 0]
Join(a, b) == [t \in T |-> IF a[t] >= b[t] THEN a[t] ELSE b[t]]
(* ticks = 0: no clocks, for termination, where only the cell matters *)
Clocks == Gen.ticks > 0
Tick(c, t) == IF Clocks THEN [c EXCEPT ![t] = @ + 1] ELSE c
Last == Len(cell)

Init ==
  /\ env \in (IF Faults THEN {"ok", "oom", "oom1", "bad"} ELSE {"ok"})
  /\ pc = [t \in T |-> "idle"]
  /\ clk = [t \in T |-> [u \in T |-> IF u = t THEN 1 ELSE 0]]
  /\ cell = << [v |-> "uninit", rel |-> Zero] >>
  /\ seen = [t \in T |-> 1]
  /\ ptr = [set |-> FALSE, w |-> Zero, r |-> Zero]
  /\ buf = [full |-> FALSE, w |-> Zero, r |-> Zero]
  /\ done = [t \in T |-> << >>]
  /\ allocs = 0 /\ spins = [t \in T |-> 0] /\ race = FALSE /\ sched = << >>

Mark(t) == sched' = IF Sc /\ Emitting THEN Append(sched, t) ELSE sched

(* indices a load by t may return *)
Readable(t) == IF Sc THEN {Last} ELSE seen[t]..Last
Load(t, o, i) ==
  /\ clk' = [clk EXCEPT ![t] = Tick(IF Acq(o) THEN Join(@, cell[i].rel) ELSE @, t)]
  /\ seen' = [seen EXCEPT ![t] = i]
  /\ UNCHANGED cell
Store(t, o, v) ==
  /\ cell' = Append(cell, [v |-> v, rel |-> IF Rel(o) THEN clk[t] ELSE Zero])
  /\ clk' = [clk EXCEPT ![t] = Tick(@, t)]
  /\ seen' = [seen EXCEPT ![t] = Last + 1]

(* plain accesses *)
Unordered(a, c, t) == \E u \in T \ {t} : a[u] > c[u]
ReadOf(x, t) == [x EXCEPT !.r[t] = clk[t][t]]
WriteOf(x, t) == [x EXCEPT !.w[t] = clk[t][t]]
RaceR(x, t) == Unordered(x.w, clk[t], t)
RaceW(x, t) == Unordered(x.w, clk[t], t) \/ Unordered(x.r, clk[t], t)

Answer(t, a) == done' = [done EXCEPT ![t] = Append(@, a)] /\ pc' = [pc EXCEPT ![t] = "idle"]
Go(t, l) == pc' = [pc EXCEPT ![t] = l]

Begin(t) ==
  /\ pc[t] = "idle" /\ Len(done[t]) < Calls
  /\ IF P.fastptr       \* a shortcut that looks at the pointer first
     THEN /\ race' = (race \/ RaceR(ptr, t))
          /\ ptr' = ReadOf(ptr, t)
          /\ Go(t, IF ptr.set THEN "use" ELSE "load")
     ELSE Go(t, "load") /\ UNCHANGED << race, ptr >>
  /\ UNCHANGED << env, clk, cell, seen, buf, done, allocs, spins, sched >>

First(t) ==
  /\ pc[t] = "load"
  /\ \E i \in Readable(t) :
       /\ Load(t, P.load, i)
       /\ CASE cell[i].v = "ready"  -> Go(t, "use")
            [] cell[i].v = "failed" -> Go(t, "refuse")
            [] cell[i].v = "uninit" -> Go(t, "claim")
            [] OTHER                -> Go(t, IF P.cas THEN "claim" ELSE "wait")
  /\ Mark(t) /\ spins' = [spins EXCEPT ![t] = 0]
  /\ UNCHANGED << env, ptr, buf, done, allocs, race >>

(* compare-exchange uninit -> in progress reads the latest write *)
Claim(t) ==
  /\ pc[t] = "claim"
  /\ IF P.cas
     THEN IF cell[Last].v = "uninit"
          THEN /\ cell' = Append(cell, [v |-> "busy", rel |-> Join(cell[Last].rel, IF Rel(P.claim) THEN clk[t] ELSE Zero)])
               /\ clk' = [clk EXCEPT ![t] = Tick(IF Acq(P.claim) THEN Join(@, cell[Last].rel) ELSE @, t)]
               /\ seen' = [seen EXCEPT ![t] = Last + 1]
               /\ Go(t, "alloc")
          ELSE \* the expected value was not there; the reading is thrown away
               /\ clk' = [clk EXCEPT ![t] = Tick(IF Acq(P.lost) THEN Join(@, cell[Last].rel) ELSE @, t)]
               /\ seen' = [seen EXCEPT ![t] = Last]
               /\ Go(t, "wait") /\ UNCHANGED cell
     ELSE Store(t, P.claim, "busy") /\ Go(t, "alloc")      \* check, then act
  /\ Mark(t)
  /\ UNCHANGED << env, ptr, buf, done, allocs, spins, race >>

Alloc(t) ==
  /\ pc[t] = "alloc"
  /\ allocs' = allocs + 1
  /\ Go(t, IF env = "oom" \/ (env = "oom1" /\ allocs = 0) THEN (IF P.failstore THEN "fail" ELSE "refuse")
           ELSE IF P.early THEN "publish" ELSE "fill")
  /\ UNCHANGED << env, clk, cell, seen, ptr, buf, done, spins, race, sched >>

Fill(t) ==
  /\ pc[t] = "fill"
  /\ race' = (race \/ RaceW(buf, t))
  /\ buf' = [WriteOf(buf, t) EXCEPT !.full = (env # "bad")]
  /\ Go(t, IF env = "bad" THEN "fail" ELSE IF P.readyfirst THEN "ready" ELSE IF P.early THEN "ready" ELSE "publish")
  /\ UNCHANGED << env, clk, cell, seen, ptr, done, allocs, spins, sched >>

Publish(t) ==
  /\ pc[t] = "publish"
  /\ race' = (race \/ RaceW(ptr, t))
  /\ ptr' = [WriteOf(ptr, t) EXCEPT !.set = TRUE]
  /\ Go(t, IF P.early THEN "fill" ELSE IF P.readyfirst THEN "use" ELSE "ready")
  /\ UNCHANGED << env, clk, cell, seen, buf, done, allocs, spins, sched >>

SetReady(t) ==
  /\ pc[t] = "ready"
  /\ Store(t, P.store, "ready")
  /\ Go(t, IF P.readyfirst THEN "publish" ELSE "use")
  /\ Mark(t)
  /\ UNCHANGED << env, ptr, buf, done, allocs, spins, race >>

SetFailed(t) ==
  /\ pc[t] = "fail"
  /\ Store(t, P.store, IF P.retry THEN "uninit" ELSE "failed")
  /\ Go(t, "refuse")
  /\ Mark(t)
  /\ UNCHANGED << env, ptr, buf, done, allocs, spins, race >>

Wait(t) ==
  /\ pc[t] = "wait"
  /\ MaxSpins = 0 \/ spins[t] < MaxSpins \/ cell[Last].v # "busy"
  /\ \E i \in Readable(t) :
       /\ Load(t, P.spin, i)
       /\ CASE cell[i].v = "ready"  -> Go(t, "use")
            [] cell[i].v = "failed" -> Go(t, "refuse")
            [] OTHER                -> IF P.impatient THEN Go(t, "refuse") ELSE UNCHANGED pc
  /\ spins' = [spins EXCEPT ![t] = IF MaxSpins = 0 THEN 0 ELSE @ + 1]
  /\ Mark(t)
  /\ UNCHANGED << env, ptr, buf, done, allocs, race >>

(* what a call reads once it has been told that the tables are there *)
Use(t) ==
  /\ pc[t] = "use"
  /\ race' = (race \/ RaceR(ptr, t) \/ (ptr.set /\ RaceR(buf, t)))
  /\ ptr' = ReadOf(ptr, t)
  /\ buf' = IF ptr.set THEN ReadOf(buf, t) ELSE buf
  /\ Answer(t, IF ~ptr.set THEN "null" ELSE IF buf.full THEN "value" ELSE "garbage")
  /\ UNCHANGED << env, clk, cell, seen, allocs, spins, sched >>

Refuse(t) ==
  /\ pc[t] = "refuse"
  /\ Answer(t, "failure")
  /\ UNCHANGED << env, clk, cell, seen, ptr, buf, allocs, spins, race, sched >>

Step(t) == Begin(t) \/ First(t) \/ Claim(t) \/ Alloc(t) \/ Fill(t) \/ Publish(t) \/ SetReady(t) \/ SetFailed(t) \/ Wait(t) \/ Use(t) \/ Refuse(t)
Finished == \A t \in T : Len(done[t]) = Calls
Next == (\E t \in T : Step(t)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Step(t))

(* reading the same value again moves only the clock; what the clocks decide is who is ordered before whom *)
View == << env, pc, cell, seen, ptr, buf, done, allocs, spins, race, sched,
           [t \in T |-> [u \in T |-> IF u = t THEN 0 ELSE clk[t][u]]] >>
Bound == Clocks => \A t \in T : clk[t][t] <= Gen.ticks

(* ---- properties ---- *)
Right(e) == IF e = "ok" THEN "value" ELSE "failure"
NoRace == Clocks => ~race
RightAnswers == \A t \in T : \A i \in 1..Len(done[t]) : done[t][i] = Right(env)
PreparedOnce == allocs <= 1
(* the outcome is final *)
Final == [][cell[Last].v \in {"ready", "failed"} => cell' = cell]_cell
NoGarbage == \A t \in T : \A i \in 1..Len(done[t]) : done[t][i] \in {"value", "failure"}
Safe == NoRace /\ RightAnswers /\ PreparedOnce /\ NoGarbage
(* every call returns *)
Returns == <>Finished

Emit == (Emitting /\ Sc /\ Finished) => PrintT("G " \o ToJson([env |-> env, s |-> sched]))
=============================================================================
