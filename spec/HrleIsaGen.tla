----------------------------- MODULE HrleIsaGen -----------------------------
(* Every machine of HrleIsa as a job: what cpuid and xgetbv answer there, and which classes  *)
(* of instructions must not be executed.                                                      *)
EXTENDS HrleIsa, HrleDraw, SequencesExt, IOUtils

Mode == IOEnv.HRK_MODE              \* "machines" or "cuts"
Join(S) == IF S = {} THEN "-" ELSE LET q == SetToSeq(S)
                                      j[k \in 1..Len(q)] == IF k = 1 THEN q[1] ELSE j[k - 1] \o "," \o q[k] IN j[Len(q)]
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN 2 ^ x + Sum(S \ {x})
Xcr(m1) == HexB[Sum(m1.xcr) + 1]      \* bit 0 (x87) is always set
Text(m1, c1) == Str(m1.leaf) \o " " \o Join(m1.cpu) \o " " \o Str(m1.osx) \o " " \o Xcr(m1) \o " " \o c1 \o " " \o Join(Classes \ Allowed(m1, c1))
Full == [leaf |-> 7, cpu |-> ChainUpTo(7), osx |-> 1, xcr |-> {1, 2, 5, 6, 7}]

VARIABLE job
GInit == \/ Mode = "machines" /\ \E m1 \in Machines : (m1.osx = 1 \/ m1.xcr \in {{}, {1, 2, 5, 6, 7}}) /\ job = "JOB " \o Text(m1, "-")
         \/ Mode = "cuts" /\ \E c1 \in Cuts : job = "JOB " \o Text(Full, c1)
GNext == UNCHANGED job
Show == PrintT(job)
=============================================================================
