------------------------------ MODULE FaultTrace ----------------------------
(***************************************************************************)
(* Trace specification for processes whose table preparation may fail.     *)
(*                                                                         *)
(* A scenario is one process: a fault chosen by the environment before the *)
(* first call, then a history of calls.  The machine is Session's, with    *)
(* the operators of Idna for the answers: tables are uninit, ready or      *)
(* failed; the outcome of preparation is not observable, so the scenario   *)
(* is explained when some behaviour of the machine explains every answer.  *)
(* The set of states the machine may be in is carried along (the subset    *)
(* construction); it must never become empty.                              *)
(***************************************************************************)
EXTENDS ApiTrace

RefDigest == Meta.digest     \* what the tables say in a process without fault, per digest kind
TableOps == {"A", "U", "M", "N", "L", "I", "G"}

Ready(e) == IF e.op = "G" THEN e.d = RefDigest ELSE Explain(e) # "no"

(* the documented failure of each operation *)
AsciiCps(s) == \A i \in 1..Len(s) : s[i] \in 0..127
Failed(e) ==
  CASE e.op = "A" -> IF IsAscii(e.in) THEN Explain(e) # "no" ELSE ~B(e.ok) /\ e.out = << >> /\ e.s = << >>
    [] e.op = "U" -> IF Len(e.in) > Limit THEN Explain(e) # "no" ELSE B(e.ok) /\ e.out = e.in /\ e.s = e.in
    [] e.op = "M" -> \/ ~B(e.ok) /\ e.out = << >> /\ e.s = << >>
                     \/ AsciiCps(e.in) /\ Explain(e) # "no"
    [] e.op = "N" -> \/ /\ ~B(e.ok) /\ e.out = e.in
                        /\ AsciiCps(e.in) \/ (~B(e.q) /\ ~B(e.q2))
                     \/ AsciiCps(e.in) /\ Explain(e) # "no"
    [] e.op = "L" -> ~B(e.r) \/ (AsciiCps(e.in) /\ Explain(e) # "no")
    [] e.op = "I" -> IF e.cp \in 0..127 THEN Explain(e) # "no" ELSE ~B(e.f) /\ (~B(e.k) \/ e.cp \in {8204, 8205})
    [] e.op = "G" -> e.nf = 0
    [] OTHER -> Explain(e) # "no"

(* which outcomes of preparation the environment allows *)
Outcomes(fault) == CASE fault = "none" -> {"ready"}
                     [] fault \in {"dmg", "dflip"} -> {"failed"}     \* the embedded data say something else than they should
                     [] OTHER -> {"ready", "failed"}
(* can the call be answered without the tables? then it may leave them alone *)
Idle(e) == Ready(e) /\ Failed(e)

Answer(t, e) == IF t = "ready" THEN Ready(e) ELSE Failed(e)

(* an allocation made by the call itself was refused: it may throw bad_alloc, and nothing else *)
Thrown(e) == e.op = "EXC" /\ B(e.fired) /\ e.what = "bad_alloc"

Step(fault, S, e) ==
  IF Thrown(e) THEN S \cup (IF "uninit" \in S THEN Outcomes(fault) ELSE {})
  ELSE UNION {
    IF t # "uninit" THEN (IF Answer(t, e) THEN {t} ELSE {})
    ELSE IF e.op \notin TableOps THEN (IF Explain(e) # "no" THEN {"uninit"} ELSE {})
    ELSE (IF Idle(e) THEN {"uninit"} ELSE {}) \cup {o \in Outcomes(fault) : Answer(o, e)}
    : t \in S}

(* a scenario: the states after it, and the first event that has no explanation *)
Run(sc) ==
  FoldLeft(LAMBDA q, e :
    IF q.s = {} THEN q
    ELSE LET s2 == Step(sc.fault, q.s, e) IN [s |-> s2, i |-> IF s2 = {} THEN q.i ELSE q.i + 1],
    [s |-> {"uninit"}, i |-> 0], sc.events)

ConsumeScenarios(scs, chunk) ==
  FoldLeft(LAMBDA t, sc :
    LET r == Run(sc)
        v == IF r.s = {} THEN "no" ELSE IF "failed" \in r.s /\ "ready" \notin r.s THEN "failed"
             ELSE IF "ready" \in r.s /\ "failed" \notin r.s THEN "ready" ELSE "open"
        t2 == [t EXCEPT !.br = Bump(@, sc.fault \o ":" \o v), !.i = @ + 1, !.no = @ + (IF v = "no" THEN 1 ELSE 0), !.ev = @ + Len(sc.events)]
    IN IF v # "no" \/ PrintT(<< "SCENARIO", chunk, t.i, r.i >>) THEN t2 ELSE t2,
    [no |-> 0, i |-> 0, ev |-> 0, br |-> << >>], scs)

FNext ==
  /\ n = 0
  /\ LET scs == ndJsonDeserialize(TraceDir \o "/" \o ToString(k) \o ".ndjson")
     IN /\ n' = Len(scs)
        /\ tally' = ConsumeScenarios(scs, k)
        /\ PrintT("CHUNK " \o ToJson([k |-> k, n |-> n', t |-> tally']))
  /\ UNCHANGED k
FSpec == Init /\ [][FNext]_vars
=============================================================================
