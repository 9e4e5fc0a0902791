------------------------------- MODULE HrleOnce -------------------------------
(* First use of the library by several threads.  Every thread that finds the features not   *)
(* yet detected detects them itself: it writes each flag once, with the value it has on this  *)
(* machine, and announces the detection last.  A call goes on with the flags as it then reads  *)
(* them.  Checked: whatever the interleaving, a call sees the machine's flags, all of them,    *)
(* so it takes the variant it would take alone.                                                 *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Threads, NFlags

VARIABLES truth, flags, detected, pc, k, seen
vars == <<truth, flags, detected, pc, k, seen>>
F == 1..NFlags
Init ==
  /\ truth \in [F -> BOOLEAN]                 \* what the machine has
  /\ flags = [f \in F |-> FALSE] /\ detected = FALSE
  /\ pc = [t \in Threads |-> "start"]
  /\ k = [t \in Threads |-> 1]                \* next flag to write / to read
  /\ seen = [t \in Threads |-> [f \in F |-> FALSE]]
Start(t)  == /\ pc[t] = "start"
             /\ pc' = [pc EXCEPT ![t] = IF detected THEN "read" ELSE "write"]
             /\ UNCHANGED <<truth, flags, detected, k, seen>>
Write(t)  == /\ pc[t] = "write"
             /\ IF k[t] <= NFlags THEN /\ flags' = [flags EXCEPT ![k[t]] = truth[k[t]]]
                                       /\ k' = [k EXCEPT ![t] = @ + 1]
                                       /\ UNCHANGED <<detected, pc>>
                ELSE /\ detected' = TRUE /\ pc' = [pc EXCEPT ![t] = "read"] /\ k' = [k EXCEPT ![t] = 1]
                     /\ UNCHANGED flags
             /\ UNCHANGED <<truth, seen>>
Read(t)   == /\ pc[t] = "read"
             /\ IF k[t] <= NFlags THEN /\ seen' = [seen EXCEPT ![t][k[t]] = flags[k[t]]]
                                       /\ k' = [k EXCEPT ![t] = @ + 1]
                                       /\ UNCHANGED pc
                ELSE pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED <<k, seen>>
             /\ UNCHANGED <<truth, flags, detected>>
\* another call of the same thread
Again(t)  == /\ pc[t] = "done" /\ pc' = [pc EXCEPT ![t] = "start"] /\ k' = [k EXCEPT ![t] = 1]
             /\ UNCHANGED <<truth, flags, detected, seen>>
Next == \E t \in Threads : Start(t) \/ Write(t) \/ Read(t) \/ Again(t)
Spec == Init /\ [][Next]_vars
SeesTheMachine == \A t \in Threads : pc[t] = "done" => seen[t] = truth
AnnouncedMeansComplete == detected => flags = truth
OnlyTrueFlags == \A f \in F : flags[f] => truth[f]
Symm == Permutations(Threads)
=============================================================================
