------------------------------ MODULE RaceTrace -----------------------------
(***************************************************************************)
(* Trace specification for threads: is each recorded execution of several  *)
(* threads in the real code allowed?                                       *)
(*                                                                         *)
(* An execution is the sequence of synchronising operations (thread, kind, *)
(* variable, memory order, value, index of the write a load reads from),   *)
(* the accesses to memory by segment (the operations of a thread cut it    *)
(* into segments), and what every call answered.                           *)
(*                                                                         *)
(* The clocks of TableInit are computed again from the operations, for     *)
(* whatever synchronisation the code uses: loads, stores, read-modify-     *)
(* write, fences, release sequences, locks.  Demanded is                   *)
(*   - no two unordered conflicting accesses (so the answers are those of  *)
(*     some interleaving on every machine),                                *)
(*   - one thread at most prepares the tables,                             *)
(*   - everybody returns,                                                  *)
(*   - one outcome of preparation explains all answers of the process.     *)
(* Whether the operations are those of TableInit's protocol is told too,   *)
(* as the branch, but is not demanded.                                     *)
(***************************************************************************)
EXTENDS FaultTrace

JoinC(a, b) == [i \in 1..Len(a) |-> Max2(a[i], b[i])]
AcqO(o) == o \in {1, 2, 4, 5}
RelO(o) == o \in {3, 4, 5}

(* state: clk per thread, snapshots of it per segment, pending fences, and per variable its writes *)
NoClk(n_) == [i \in 1..n_ |-> 0]
Start(n_, nv) ==
  [clk  |-> [t \in 1..n_ |-> [NoClk(n_) EXCEPT ![t] = 1]],
   snap |-> [t \in 1..n_ |-> << [NoClk(n_) EXCEPT ![t] = 1] >>],
   frel |-> [t \in 1..n_ |-> NoClk(n_)],
   facq |-> [t \in 1..n_ |-> NoClk(n_)],
   w    |-> [v \in 0..nv |-> << NoClk(n_) >>],      \* what the i-th write of v publishes
   lock |-> [v \in 0..nv |-> NoClk(n_)],
   ok   |-> TRUE]

(* the segment ends; c is the clock at its end, the next one begins with what was acquired *)
NextSeg(q, t, c) ==
  LET c2 == [c EXCEPT ![t] = @ + 1]
  IN [q EXCEPT !.clk[t] = c2, !.snap[t] = Append(@, c2)]

DoOp(q, op) ==
  LET t == op[1]  k_ == op[2]  v == op[3]  o == op[4]  rf == op[6]
      c == q.clk[t]
      pub == IF RelO(o) THEN c ELSE q.frel[t]
  IN CASE k_ = "L" ->
            IF rf + 1 > Len(q.w[v]) THEN [q EXCEPT !.ok = FALSE]
            ELSE LET r == q.w[v][rf + 1] IN
                 NextSeg([q EXCEPT !.facq[t] = JoinC(@, r)], t, IF AcqO(o) THEN JoinC(c, r) ELSE c)
       [] k_ = "S" -> NextSeg([q EXCEPT !.w[v] = Append(@, pub)], t, c)
       [] k_ = "X" -> LET r == q.w[v][Len(q.w[v])] IN
                      NextSeg([q EXCEPT !.w[v] = Append(@, JoinC(r, pub)), !.facq[t] = JoinC(@, r)],
                              t, IF AcqO(o) THEN JoinC(c, r) ELSE c)
       [] k_ = "W" -> [q EXCEPT !.w[v] = Append(@, NoClk(Len(c)))]      \* written by a plain store
       [] k_ = "F" -> LET c2 == IF AcqO(o) THEN JoinC(c, q.facq[t]) ELSE c IN
                      NextSeg(IF RelO(o) THEN [q EXCEPT !.frel[t] = c2] ELSE q, t, c2)
       [] k_ = "K" -> NextSeg(q, t, JoinC(c, q.lock[v]))
       [] k_ = "V" -> NextSeg([q EXCEPT !.lock[v] = JoinC(@, c)], t, c)
       [] OTHER -> [q EXCEPT !.ok = FALSE]

Clocks(s) ==
  LET nv == FoldLeft(LAMBDA m, op : Max2(m, op[3]), 0, s.ops)
  IN FoldLeft(DoOp, Start(s.n, nv), s.ops)

(* kinds: 1 read, 2 write, 4 atomic read, 8 atomic write, as a mask *)
Has(m, b) == (m \div b) % 2 = 1
Plain(m) == Has(m, 1) \/ Has(m, 2)
Writes(m) == Has(m, 2) \/ Has(m, 8)
Conflict(a, b) == \/ Has(a, 2) \/ Has(b, 2)
                  \/ Has(a, 8) /\ Plain(b)
                  \/ Has(b, 8) /\ Plain(a)
(* segment i of t happens before segment j of u *)
Ordered(q, t, i, u, j) == q.snap[u][j][t] >= i
Racy(q, cl) ==
  \E x \in 1..Len(cl.acc), y \in 1..Len(cl.acc) :
    /\ x < y
    /\ LET a == cl.acc[x]  b == cl.acc[y] IN
       /\ a[1] # b[1] /\ Conflict(a[3], b[3])
       /\ ~Ordered(q, a[1], a[2], b[1], b[2])
       /\ ~Ordered(q, b[1], b[2], a[1], a[2])

(* one outcome explains every answer *)
Told(o, e) == IF e.op \in TableOps THEN Answer(o, e) ELSE Explain(e) # "no"
AllTold(s) == \E o \in Outcomes(s.fault) : \A t \in 1..s.n : \A i \in 1..Len(s.calls[t]) : Told(o, s.calls[t][i])
Complete(s) == \A t \in 1..s.n : Len(s.calls[t]) = s.asked[t]

Verdict(s) ==
  IF "dead" \in DOMAIN s THEN s.dead
  ELSE IF s.hang = 1 THEN "waits-forever"
  ELSE IF Len(s.big) > 1 THEN "prepared-twice"
  ELSE IF ~Complete(s) THEN "incomplete"
  ELSE LET q == Clocks(s) IN
       IF ~q.ok THEN "malformed"
       ELSE IF \E i \in 1..Len(s.classes) : Racy(q, s.classes[i]) THEN "race"
       ELSE IF ~AllTold(s) THEN "answer"
       ELSE "ok"

(* do the operations follow the protocol of TableInit?  The automaton of one thread. *)
Shipped(s) ==
  LET step(st, op) ==
        CASE st = "idle" /\ op[2] = "L" /\ op[4] = 2 -> (IF op[5] \in {2, 3} THEN "idle" ELSE "claim")
          [] st = "claim" /\ op[2] = "X" /\ op[4] = 4 /\ op[5] = 1 -> "own"
          [] st = "claim" /\ op[2] = "L" /\ op[4] = 2 -> (IF op[5] \in {2, 3} THEN "wait" ELSE IF op[5] = 1 THEN "wait" ELSE "bad")
          [] st = "wait" /\ op[2] = "L" /\ op[4] = 2 -> (IF op[5] \in {2, 3} THEN "idle" ELSE "wait")
          [] st = "own" /\ op[2] = "S" /\ op[4] = 3 /\ op[5] \in {2, 3} -> "idle"
          [] OTHER -> "bad"
      one(t) == FoldLeft(LAMBDA st, op : IF op[1] # t THEN st ELSE step(st, op), "idle", s.ops)
  IN \A t \in 1..s.n : one(t) \in {"idle", "wait"}
Role(s) == (IF \E i \in 1..Len(s.ops) : s.ops[i][2] = "L" /\ s.ops[i][5] = 1 THEN "contended" ELSE "alone")
Shape(s) == IF "dead" \in DOMAIN s THEN "none" ELSE (IF Shipped(s) THEN "TableInit/" ELSE "other/") \o Role(s)

ConsumeRuns(scs, chunk) ==
  FoldLeft(LAMBDA t, s :
    LET v == Verdict(s)
        t2 == [t EXCEPT !.br = Bump(@, s.fault \o ":" \o v \o ":" \o Shape(s)), !.i = @ + 1, !.no = @ + (IF v # "ok" THEN 1 ELSE 0),
                        !.ev = @ + Len(s.ops) + FoldLeft(LAMBDA a, x : a + Len(x), 0, s.calls), !.cl = @ + Len(s.classes)]
    IN IF v = "ok" \/ PrintT(<< "RUN", chunk, t.i, v >>) THEN t2 ELSE t2,
    [no |-> 0, i |-> 0, ev |-> 0, cl |-> 0, br |-> << >>], scs)

RNext ==
  /\ n = 0
  /\ LET scs == ndJsonDeserialize(TraceDir \o "/" \o ToString(k) \o ".ndjson")
     IN /\ n' = Len(scs)
        /\ tally' = ConsumeRuns(scs, k)
        /\ PrintT("CHUNK " \o ToJson([k |-> k, n |-> n', t |-> tally']))
  /\ UNCHANGED k
RSpec == Init /\ [][RNext]_vars
=============================================================================
