---------------------------- MODULE HrleThreads ----------------------------
(* Two calls in two threads.  What a call does to state it could share with another call     *)
(* was recorded from the real code, call by call (events "A": the number of its accesses to   *)
(* the library's writable data and which of them write).  Threads can influence each other    *)
(* only there, and reads commute, so the interleavings that matter switch threads at an       *)
(* access next to a write.  The behaviours of this machine are those interleavings, with up    *)
(* to MaxSwitches switches; each is printed as a schedule for the real code.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json, HrleDraw

Mode    == IOEnv.HRK_MODE                     \* "traces": which calls to record; "schedules"
Tr      == IF Mode = "traces" THEN <<>> ELSE ndJsonDeserialize(IOEnv.HRK_EVENTS)
Deep    == "HRK_DEEP" \in DOMAIN IOEnv /\ IOEnv.HRK_DEEP = "1"
Shard   == atoi(IOEnv.HRK_SHARD)
Shards  == atoi(IOEnv.HRK_SHARDS)

-----------------------------------------------------------------------------
(* calls *)
C == INSTANCE HrleCodecs
Names == DOMAIN C!Codecs
Levels == {"avx512f", "avx2", "avx", "sse4.1", "ssse3", "sse2", "none"}
PlanA == "s3 U70 R300:41 U33 R64:4142 U9"
PlanB == "s4 A2:90 R41:00 s7 U140 R200:43444546"
MineName(k) == (C!Codecs[k].size * 7 + C!Codecs[k].lut * 3 + C!Codecs[k].min + (IF C!Codecs[k].sym THEN 5 ELSE 0)) % Shards = Shard

-----------------------------------------------------------------------------
(* pairs of recorded calls *)
Idx == DOMAIN Tr
Writes(i) == Tr[i].wr > 0
Fresh(i) == Tr[i].st = "fresh"
Star == {"mmtf128", "rle8_packed_multi", "rle8_low_entropy"}
\* partner: same start; same codec (other input or direction), or one of a few codecs whose result depends on what was detected
Partner(i, j) ==
  /\ Tr[j].st = Tr[i].st /\ Tr[j].p = PlanB
  /\ \/ Tr[j].c = Tr[i].c
     \/ Fresh(i) /\ Tr[j].c = "mmtf128" /\ Tr[j].op = "c"
     \/ Fresh(i) /\ Tr[i].c \in Star /\ Tr[j].c \in Star
     \/ ~Fresh(i) /\ (Writes(i) \/ Writes(j)) /\ Tr[j].c \in Star
\* where a thread may be stopped: around its writes; half way if it writes nothing
Around(i) == {p \in {Tr[i].acc[x] : x \in DOMAIN Tr[i].acc} \cup {Tr[i].acc[x] + 1 : x \in DOMAIN Tr[i].acc} : p < Tr[i].n}
Points(i) == IF Writes(i) THEN Around(i) ELSE IF Tr[i].n = 0 THEN {} ELSE {Tr[i].n \div 2}
Full(i, j) == Fresh(i) /\ Tr[i].c \in Star /\ Tr[j].c \in Star /\ (Deep \/ (Tr[i].op = "c" /\ Tr[j].op = "c"))
MaxSwitches(i, j) == IF Full(i, j) \/ Deep THEN 2 ELSE 1

VARIABLES pair, at, run, sw, text                \* the two calls; next access of each (-1: ended); running thread; switches; schedule so far
vars == <<pair, at, run, sw, text>>
Other(w) == IF w = 1 THEN 2 ELSE 1
Nm(w) == IF w = 1 THEN "A" ELSE "B"
Init ==
  IF Mode = "traces" THEN
    /\ \E k \in {x \in Names : MineName(x)}, op \in {"c", "d"}, st \in Levels \cup {"fresh"}, p \in {PlanA, PlanB} :
         text = "JOB A " \o st \o " " \o k \o " " \o op \o " " \o p
    /\ pair = <<>> /\ at = <<>> /\ run = 0 /\ sw = 0
  ELSE
    /\ \E i \in {x \in Idx : x % Shards = Shard /\ Tr[x].p = PlanA /\ Tr[x].f = ""} : \E j \in {y \in Idx : Partner(i, y) /\ Tr[y].f = ""} : pair = <<i, j>>
    /\ at = <<0, 0>> /\ run = 1 /\ sw = 0 /\ text = ""

\* the running thread goes on to a point p and is stopped there
Stop(w) ==
  /\ sw < MaxSwitches(pair[1], pair[2]) /\ at[Other(w)] >= 0
  /\ \E p \in Points(pair[w]) :
       /\ p > at[w] \/ (p = 0 /\ at[w] = 0)
       /\ at' = [at EXCEPT ![w] = p]
       /\ text' = text \o Nm(w) \o Str(p) \o ","
  /\ run' = Other(w) /\ sw' = sw + 1 /\ UNCHANGED pair
\* ... or to its end
End(w) ==
  /\ at' = [at EXCEPT ![w] = -1] /\ text' = text \o Nm(w) \o "*,"
  /\ run' = Other(w) /\ UNCHANGED <<pair, sw>>
Next == Mode = "schedules" /\ at[run] >= 0 /\ (Stop(run) \/ End(run))
Spec == Init /\ [][Next]_vars

Done == Mode = "schedules" /\ at = <<-1, -1>>
RECURSIVE Semi(_, _)
Semi(s, k) == IF k > Len(s) THEN "" ELSE (IF SubSeq(s, k, k) = " " THEN ";" ELSE SubSeq(s, k, k)) \o Semi(s, k + 1)
Side(i) == Tr[i].c \o ":" \o Tr[i].op \o ":" \o (IF Tr[i].p = PlanA THEN Semi(PlanA, 1) ELSE Semi(PlanB, 1))
Show == IF Mode = "traces" THEN PrintT(text)
        ELSE Done => PrintT("JOB S " \o Tr[pair[1]].st \o " " \o text \o " " \o Side(pair[1]) \o " " \o Side(pair[2]))
\* a thread is never stopped behind its end
Sane == Mode = "schedules" => \A w \in {1, 2} : at[w] <= Tr[pair[w]].n
=============================================================================
