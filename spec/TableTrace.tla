----------------------------- MODULE TableTrace -----------------------------
(***************************************************************************)
(* Trace specification of the table tools.  A scenario starts from the     *)
(* shipped tree and runs a history of tools in it:                         *)
(*    M  regenerate the mapping tables from a data file                    *)
(*    I  regenerate the identifier tables from a data file                 *)
(*    P  repack                                                            *)
(* and then the library is built and observed.  The abstract state is what *)
(* the two kinds of tables mean; each tool replaces its own and leaves the *)
(* other alone, a refused file changes nothing (Tables.tla: Lossless, and  *)
(* RefusesOnlyOverflow), repacking changes nothing.                        *)
(*                                                                         *)
(* rows: << first, last, status, text >>, ascending; status 0 ignored,     *)
(* 1 valid (deviation included), 2 disallowed, 3 mapped                    *)
(* runs: << first, last, kind, text >>; kind 0 refused, 1 unchanged,       *)
(* 2 replaced by text                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Dir  == IOEnv.TRACE_DIR
Meta == JsonDeserialize(Dir \o "/index.json")
Shipped == Meta.shipped            \* what the unmodified tree was observed to mean

LastUnit == 1114367                \* observed up to U+1100FF
VARIABLES k, n, t
vars == << k, n, t >>

(* ------------------------------------------------- the meaning of a file *)
RunOf(r) == CASE r[3] = 1 -> << r[1], r[2], 1, << >> >>
              [] r[3] = 2 -> << r[1], r[2], 0, << >> >>
              [] r[3] = 0 -> << r[1], r[2], 2, << >> >>
              [] OTHER -> IF r[1] = r[2] /\ r[4] = << r[1] >> THEN << r[1], r[2], 1, << >> >> ELSE << r[1], r[2], 2, r[4] >>
Put(acc, u) == IF u[1] > u[2] THEN acc
               ELSE IF acc # << >> /\ acc[Len(acc)][3] = u[3] /\ acc[Len(acc)][4] = u[4]
                    THEN [acc EXCEPT ![Len(acc)][2] = u[2]]
                    ELSE Append(acc, u)
(* the code points a file does not list are disallowed *)
MapMeaning(rows) ==
  LET f == FoldLeft(LAMBDA a, r : [runs |-> Put(Put(a.runs, << a.next, r[1] - 1, 0, << >> >>), RunOf(r)), next |-> r[2] + 1],
                    [runs |-> << >>, next |-> 0], rows)
  IN  Put(f.runs, << f.next, LastUnit, 0, << >> >>)
Ascending(rows) == \A i \in 1..Len(rows)-1 : rows[i][2] < rows[i + 1][1]

(* code points of a list of ranges, joined *)
PutR(acc, r) == IF acc # << >> /\ acc[Len(acc)][2] + 1 = r[1] THEN [acc EXCEPT ![Len(acc)][2] = r[2]] ELSE Append(acc, << r[1], r[2] >>)
Joined(rs) == FoldLeft(PutR, << >>, rs)
With(rs, cs) ==  \* add single code points that the standard adds to the ranges
  Joined(SortSeq(rs \o SelectSeq([i \in 1..Len(cs) |-> << cs[i], cs[i] >>], LAMBDA c : \A i \in 1..Len(rs) : ~(rs[i][1] <= c[1] /\ c[1] <= rs[i][2])),
                 LAMBDA x, y : x[1] < y[1]))
IdMeaning(s, c) == << With(s, << 36, 95 >>), With(c, << 36 >>) >>

(* a file that needs many more blocks than Unicode's may be refused *)
Crowded(rows) == Cardinality(UNION { (rows[i][1] \div 64)..(rows[i][2] \div 64) : i \in { j \in 1..Len(rows) : rows[j][3] \in {0, 3} /\ rows[j][1] < 917504 } }) > 450
                 \/ FoldLeft(LAMBDA a, r : a + Len(r[4]) * 4, 0, rows) > 60000

(* ------------------------------------------------------------ the history *)
Start == [m |-> Shipped.map, i |-> << Shipped.first, Shipped.rest >>, ok |-> TRUE]
Step(st, e) ==
  CASE e.op = "M" -> IF e.refused = 1 THEN [st EXCEPT !.ok = @ /\ Crowded(e.rows)]
                     ELSE [st EXCEPT !.m = MapMeaning(e.rows), !.ok = @ /\ Assert(Ascending(e.rows), "rows")]
    [] e.op = "I" -> IF e.refused = 1 THEN [st EXCEPT !.ok = FALSE] ELSE [st EXCEPT !.i = IdMeaning(e.start, e.cont)]
    [] e.op = "P" -> [st EXCEPT !.ok = @ /\ e.refused = 0]
State(sc) == FoldLeft(Step, Start, sc.steps)
Good(sc) == LET st == State(sc)
            IN  st.ok /\ sc.built = 1 /\ sc.map = st.m /\ sc.first = st.i[1] /\ sc.rest = st.i[2]

(* first observation that differs, for the report *)
Where(sc) == LET st == State(sc)
                 len == Min({Len(sc.map), Len(st.m)})
                 d == { i \in 1..len : sc.map[i] # st.m[i] }
             IN  IF ~st.ok THEN << "refused" >> ELSE IF sc.built # 1 THEN << "build" >>
                 ELSE IF d # {} THEN << "map", sc.map[Min(d)], st.m[Min(d)] >>
                 ELSE IF Len(sc.map) # Len(st.m) THEN << "map length" >>
                 ELSE IF sc.first # st.i[1] THEN << "id_start" >> ELSE << "id_continue" >>

Consume(scs, chunk) ==
  FoldLeft(LAMBDA a, sc :
    LET g == Good(sc)
        a2 == [i |-> a.i + 1, ev |-> a.ev + Len(sc.steps) + Len(sc.map) + Len(sc.first) + Len(sc.rest),
               br |-> IF g THEN [a.br EXCEPT !["tools:good"] = @ + 1] ELSE [a.br EXCEPT !["tools:no"] = @ + 1]]
    IN  IF g \/ (PrintT(<< "SCENARIO", chunk, a.i, 0 >>) /\ PrintT("WHERE " \o ToJson(Where(sc)))) THEN a2 ELSE a2,
    [i |-> 0, ev |-> 0, br |-> ("tools:good" :> 0) @@ ("tools:no" :> 0)], scs)

Init == k \in 1..Meta.chunks /\ t = [i |-> 0] /\ n = 0
Next == /\ n = 0
        /\ LET scs == ndJsonDeserialize(Dir \o "/" \o ToString(k) \o ".ndjson")
           IN  /\ n' = Len(scs)
               /\ t' = Consume(scs, k)
               /\ PrintT("CHUNK " \o ToJson([k |-> k, n |-> n', t |-> t']))
        /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
=============================================================================
