------------------------------ MODULE ApiTrace ------------------------------
(***************************************************************************)
(* Trace specification: is every recorded call of the real library a step  *)
(* the specification allows?                                               *)
(*                                                                         *)
(* The trace is split into NChunks files of events (one JSON object per    *)
(* line, in call order).  One behaviour per chunk consumes its events one  *)
(* after the other; the library has no state of its own, so the state is   *)
(* the position and the tally.  Each event is matched against the          *)
(* operators of Idna / Inflate under the standard profile, then under the  *)
(* profile of the shipped tables, then under any mixture of the named      *)
(* deviations.  An event nothing explains is reported and counted.         *)
(***************************************************************************)
EXTENDS Idna, Inflate

TraceDir == IOEnv.TRACE_DIR
Meta == JsonDeserialize(TraceDir \o "/index.json")
NChunks == Meta.chunks
Templates == Meta.templates          \* label contexts of SV events: << prefix, suffix >>
WantBranches == Meta.branches

B(x) == x = 1

(* ---- one operator per kind of event; p is the profile ---- *)
MatchAscii(r, ok, out, s) == IF r.ok THEN B(ok) /\ out = r.out /\ s = r.out ELSE ~B(ok) /\ out = << >> /\ s = << >>

EvA(p, e) == B(e.same) /\ MatchAscii(ToAscii(p, e.in), e.ok, e.out, e.s)

EvU(p, e) ==
  /\ B(e.same)
  /\ LET r == ToUnicode(p, e.in) IN
     IF r.ok THEN B(e.ok) /\ e.out = r.out /\ e.s = r.out
     ELSE ~B(e.ok) /\ e.out = << >> /\ e.s = e.in

(* chain: in -toascii-> o1 -toascii-> o2;  o1 -tounicode-> u1 -toascii-> o3; u1 -tounicode-> u2 *)
EvX(p, e) ==
  LET r == ToAscii(p, e.in) IN
  IF ~r.ok THEN ~B(e.k1) /\ e.o1 = << >>
  ELSE /\ B(e.k1) /\ e.o1 = r.out
       /\ LET r2 == ToAscii(p, e.o1)
              ru == ToUnicode(p, e.o1)
          IN /\ B(e.k2) = r2.ok /\ e.o2 = r2.out
             /\ B(e.ku) = ru.ok /\ e.u1 = ru.out
             /\ ru.ok =>
                  LET r3 == ToAscii(p, e.u1)
                      ru2 == ToUnicode(p, e.u1)
                  IN /\ B(e.k3) = r3.ok /\ e.o3 = r3.out
                     /\ B(e.ku2) = ru2.ok /\ e.u2 = ru2.out
(* the relations the chain must satisfy whatever the profile *)
RelX(e) ==
  (B(e.k1) /\ ~IsAscii(e.in)) =>
     /\ IsAscii(e.o1) /\ \A i \in 1..Len(e.o1) : e.o1[i] \notin 65..90
     /\ Len(e.o1) <= Limit =>
          /\ B(e.k2) /\ e.o2 = e.o1
          /\ B(e.ku)
          /\ Len(e.u1) <= Limit => (B(e.k3) /\ e.o3 = e.o1 /\ B(e.ku2) /\ e.u2 = e.u1)

EvQ(p, e) ==
  /\ LET r == ToAscii(p, e.x) IN B(e.kx) = r.ok /\ e.ox = r.out
  /\ LET r == ToAscii(p, e.y) IN B(e.ky) = r.ok /\ e.oy = r.out
RelQ(p, e) ==
  (~IsAscii(e.x) /\ ~IsAscii(e.y) /\ Canon(p, e.x).ok /\ Canon(p, e.x) = Canon(p, e.y)
     /\ Len(e.x) <= Limit /\ Len(e.y) <= Limit)
    => (e.kx = e.ky /\ e.ox = e.oy)

EvM(e) ==
  /\ B(e.same)
  /\ LET r == MapAll(e.in) IN
     IF r.ok THEN B(e.ok) /\ e.out = r.out /\ e.s = r.out ELSE ~B(e.ok) /\ e.out = << >> /\ e.s = << >>

EvN(p, e) ==
  LET r == Nfc(p, e.in) IN
  /\ B(e.ok) /\ e.out = r
  /\ B(e.q) => e.in = r
  /\ B(e.q2) => Nfc(p, e.out) = e.out

(* validity of a label is specified on mapped, normalised labels only *)
LabelInDomain(p, s) == s # << >> /\ MapStable(s) /\ IsNfc(p, s)
EvL(p, e) == B(e.same) /\ (LabelInDomain(p, e.in) => (B(e.r) <=> LoneLabelValid(p, e.in)))

EvD(e) ==
  LET r == PunyDecode(e.in) IN
  /\ B(e.ok) = r.ok /\ B(e.v) = r.ok
  /\ r.ok => /\ e.out = r.out
             /\ LET b == PunyEncode(r.out) IN B(e.okb) = b.ok /\ b.ok => e.back = b.out

EvE(e) ==
  LET r == PunyEncode(e.in) IN
  /\ B(e.same) /\ B(e.ok) = r.ok
  /\ r.ok => /\ e.out = e.pre \o r.out
             /\ LET b == PunyDecode(r.out) IN B(e.okb) = b.ok /\ b.ok => (e.back = b.out /\ e.back = e.in)

EvT(e) ==
  /\ B(e.same)
  /\ LET d == Utf8Decode(e.in) IN
     IF d.ok THEN e.r = Len(d.cps) /\ e.l = Len(d.cps) /\ e.out = d.cps
     ELSE e.r = 0

EvR(e) ==
  /\ B(e.same)
  /\ IF \A i \in 1..Len(e.in) : IsScalar(e.in[i])
     THEN e.l = Utf8Length(e.in) /\ e.r = e.l /\ e.out = Utf8Encode(e.in)
     ELSE e.r = 0

EvMapBytes(e) == e.out = Lower(e.in) /\ \A i \in 1..Len(e.before) : e.before[i] = 90

EvI(e) == B(e.f) = NameCodePoint(e.cp, TRUE) /\ B(e.k) = NameCodePoint(e.cp, FALSE)

EvF(e) == B(e.r) = (\E i \in 1..Len(e.in) : ForbiddenByte(e.in[i]))

EvZ(e) == B(e.same) /\ InflateAllowed(e.in, e.cap, e.r, e.out)

(* long inputs given as unit^reps tail, results summarised *)
AllAscii(e) == IsAscii(e.unit) /\ IsAscii(e.tail)
EvAL(e) ==
  /\ B(e.same) /\ B(e.seq) /\ e.len = Len(e.unit) * e.reps + Len(e.tail)
  /\ IF e.len > Limit THEN ~B(e.ok) /\ e.outlen = 0 /\ e.slen = 0
     ELSE AllAscii(e) => (B(e.ok) /\ B(e.lower) /\ e.outlen = e.len)
EvUL(e) ==
  /\ B(e.same) /\ e.len = Len(e.unit) * e.reps + Len(e.tail)
  /\ IF e.len > Limit THEN ~B(e.ok) /\ e.outlen = 0 /\ B(e.sin) /\ e.slen = e.len
     ELSE B(e.ok) /\ B(e.seq)

(* ---- sweeps: runs of code points with the same recorded answer ---- *)
EvSM(e) ==
  \A c \in e.lo..e.hi :
    LET s == Status(c) IN
    CASE e.kind = 0 -> s = Disallowed
      [] e.kind = 1 -> s = Valid
      [] e.kind = 2 -> s = Mapped /\ MapSeq(c) = e.out
      [] OTHER -> FALSE
EvSI(e) ==
  \A c \in e.lo..e.hi :
    /\ (e.k % 2 = 1) <=> NameCodePoint(c, TRUE)
    /\ (e.k \div 2 = 1) <=> NameCodePoint(c, FALSE)
EvSN(p, e) == \A c \in e.lo..e.hi : Nfc(p, << c >>) = << c >>
EvSP(p, e) == \A c \in e.lo..e.hi : LET s == Append(e.left, c) IN Nfc(p, s) = s
(* code points of one class are interchangeable in a context, the joiners excepted *)
EvSV(p, e) ==
  \A c \in IF e.lo = e.hi THEN {e.lo}
           ELSE LET K == {ClassOf(x) : x \in e.lo..e.hi}
                IN {CHOOSE x \in e.lo..e.hi : ClassOf(x) = k : k \in K} \cup ((e.lo..e.hi) \cap {ZWNJ, ZWJ}) :
    \A j \in 1..Len(Templates) :
      LET s == (Templates[j][1] \o << c >>) \o Templates[j][2]
      IN B(e.mask[j]) <=> LoneLabelValid(p, s)
(* to_ascii of prefix c suffix refused for a whole run of code points *)
EvSA(p, e) == \A c \in e.lo..e.hi : ~ToAscii(p, (e.pre \o Utf8Enc(c)) \o e.suf).ok

(* which bytes complete prefix to exactly one code point, and which one *)
EvP(e) ==
  LET acc == UNION {e.acc[i][1]..e.acc[i][2] : i \in 1..Len(e.acc)}
      val(b) == LET i == CHOOSE i \in 1..Len(e.acc) : b \in e.acc[i][1]..e.acc[i][2]
                IN e.acc[i][3] + (b - e.acc[i][1])
  IN \A b \in 0..255 :
       LET d == Utf8Decode(Append(e.prefix, b)) IN
       IF d.ok /\ Len(d.cps) = 1 THEN b \in acc /\ val(b) = d.cps[1] ELSE b \notin acc

(* ---- verdict ---- *)
Match(p, e) ==
  CASE e.op = "A" -> EvA(p, e)
    [] e.op = "U" -> EvU(p, e)
    [] e.op = "X" -> EvX(p, e) /\ RelX(e)
    [] e.op = "Q" -> EvQ(p, e) /\ RelQ(p, e)
    [] e.op = "M" -> EvM(e)
    [] e.op = "N" -> EvN(p, e)
    [] e.op = "L" -> EvL(p, e)
    [] e.op = "D" -> EvD(e)
    [] e.op = "E" -> EvE(e)
    [] e.op = "T" -> EvT(e)
    [] e.op = "R" -> EvR(e)
    [] e.op = "a" -> EvMapBytes(e)
    [] e.op = "I" -> EvI(e)
    [] e.op = "F" -> EvF(e)
    [] e.op = "Z" -> EvZ(e)
    [] e.op = "LIM" -> e.limit = Limit
    [] e.op = "AL" -> EvAL(e)
    [] e.op = "UL" -> EvUL(e)
    [] e.op = "SM" -> EvSM(e)
    [] e.op = "SI" -> EvSI(e)
    [] e.op = "SN" -> EvSN(p, e)
    [] e.op = "SP" -> EvSP(p, e)
    [] e.op = "SV" -> EvSV(p, e)
    [] e.op = "SA" -> EvSA(p, e)
    [] e.op = "P" -> EvP(e)
    [] e.op = "OK" -> TRUE                  \* survived; recorded for totality only
    [] OTHER -> FALSE                       \* crash, hang, exception: never allowed

(* mix: whether mixtures of the known deviations are tried too.  They cost the most and only
   matter for code that already deviates; a chunk with two unexplained events is refused
   whatever the rest says. *)
ExplainIn(e, mix) ==
  IF Match(Std, e) THEN "std"
  ELSE IF Match(Built, e) THEN "built"
  ELSE IF ~mix \/ ("in" \in DOMAIN e /\ Len(e.in) > 3000) THEN "no"
  ELSE IF \E p \in Profiles : Match(p, e) THEN "mixed"
  ELSE "no"
Explain(e) == ExplainIn(e, TRUE)

Branch(e) ==
  IF "in" \in DOMAIN e /\ Len(e.in) > 1500 THEN e.op \o ":long" ELSE
  CASE e.op = "A" -> "to_ascii:" \o Reason(Std, e.in)
    [] e.op = "X" -> "chain:" \o Reason(Std, e.in)
    [] e.op = "Q" -> "pair:" \o (IF Canon(Std, e.x) = Canon(Std, e.y) THEN "same:" ELSE "different:") \o Reason(Std, e.x)
    [] e.op = "U" -> "to_unicode:" \o (IF Len(e.in) > Limit THEN "limit" ELSE IF ToUnicode(Std, e.in).out = e.in THEN "kept" ELSE "decoded")
    [] e.op = "M" -> "map:" \o (IF MapAll(e.in).ok THEN (IF MapStable(e.in) THEN "stable" ELSE "mapped") ELSE "disallowed")
    [] e.op = "N" -> "nfc:" \o (IF IsNfc(Std, e.in) THEN (IF B(e.q) THEN "quick" ELSE "unchanged") ELSE "changed")
    [] e.op = "L" -> "label:" \o (IF LabelInDomain(Std, e.in) THEN ValidReason(Std, e.in, FALSE) ELSE "unconstrained")
    [] e.op = "D" -> "decode:" \o (IF PunyDecode(e.in).ok THEN "ok" ELSE "refused")
    [] e.op = "E" -> "encode:" \o (IF PunyEncode(e.in).ok THEN "ok" ELSE "refused")
    [] e.op = "T" -> "utf8:" \o (IF WellFormed(e.in) THEN "ok" ELSE "refused")
    [] e.op = "Z" -> "inflate:" \o InflateBranch(e.in, e.cap)
    [] OTHER -> e.op

VARIABLES k,     \* chunk
          n,     \* events consumed
          tally  \* [std, built, mixed, no]: how they were explained

vars == << k, n, tally >>

(* consume the events of a chunk in order; printing is a side channel for the report *)
Bump(h, x) == IF x \in DOMAIN h THEN [h EXCEPT ![x] = @ + 1] ELSE h @@ (x :> 1)
Consume(evs, chunk) ==
  FoldLeft(LAMBDA t, e :
    LET v == ExplainIn(e, t.no < 2)
        br == IF WantBranches THEN Branch(e) ELSE e.op
        t2 == [t EXCEPT ![v] = @ + 1, !.i = @ + 1, !.br = Bump(@, br)]
    IN IF v = "std" \/ PrintT(<< "EVENT", v, chunk, t.i >>) THEN t2 ELSE t2,
    [std |-> 0, built |-> 0, mixed |-> 0, no |-> 0, i |-> 0, br |-> << >>], evs)

Init == k \in 1..NChunks /\ n = 0 /\ tally = << >>

Next ==
  /\ n = 0
  /\ LET evs == ndJsonDeserialize(TraceDir \o "/" \o ToString(k) \o ".ndjson")
     IN /\ n' = Len(evs)
        /\ tally' = Consume(evs, k)
        /\ PrintT("CHUNK " \o ToJson([k |-> k, n |-> n', t |-> tally']))
  /\ UNCHANGED k

Spec == Init /\ [][Next]_vars
=============================================================================
