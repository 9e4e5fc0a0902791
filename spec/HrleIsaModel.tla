---------------------------- MODULE HrleIsaModel ----------------------------
(* First use, restriction and dispatch as a state machine over all machines of HrleIsa. *)
EXTENDS HrleIsa

VARIABLES m, flags, cut, ran              \* machine, detected, restriction, instructions of the last step
vars == <<m, flags, cut, ran>>
None == {"?"}
Init == m \in Machines /\ flags = None /\ cut = "-" /\ ran = {}
FirstUse == flags = None /\ flags' = Detect(m) /\ ran' = ran \cup {"cpuid"} \cup (IF XgetbvRuns(m) THEN {"xgetbv"} ELSE {}) /\ UNCHANGED <<m, cut>>
Restrict == /\ flags # None /\ cut = "-"
            /\ \E x \in Cuts : cut' = x /\ flags' = flags \cap CutFlags(x) /\ ran' = {}
            /\ UNCHANGED m
Call == flags # None /\ \E k \in DOMAIN Ladders : ran' = {"base"} \cup Needs(Choose(k, flags)) /\ UNCHANGED <<m, flags, cut>>
Next == FirstUse \/ Restrict \/ Call
Spec == Init /\ [][Next]_vars
OnlyUsable == ran \subseteq Allowed(m, cut)
\* nothing usable is ignored: a flag is missing only if the extension cannot be used or was cut off
NothingLost == flags # None => \A f \in ChainUpTo(7) : f \in Usable(m) \cap CutClasses(cut) => f \in flags
=============================================================================
