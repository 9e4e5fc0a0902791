----------------------------- MODULE HrleToolRun -----------------------------
(* A test run of the tool as a state machine: one buffer for compressed data, one for         *)
(* decompressed data, both used by one codec after the other.  A codec may fail to compress,    *)
(* fail to decompress, leave part of the output unwritten, write wrong bytes or return a wrong   *)
(* size; what it does not write stays as it was.  Checked for every behaviour of K codecs: the    *)
(* run succeeds exactly if every codec did.  (With Clear disabled, TLC shows the run in which a    *)
(* codec lives off the output of the one before it.)                                               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS K, N                                   \* codecs, bytes of the file
VARIABLES conduct, i, pc, buf, size, verdict
vars == <<conduct, i, pc, buf, size, verdict>>

File == [p \in 1..N |-> p]
\* what a codec does: compress; result size; which places it writes, and which of those wrongly
Conduct == [comp : {0, 1}, size : {0, N - 1, N, N + 1}, writes : SUBSET (1..N), wrong : SUBSET (1..N)]
Good(x) == x.comp = 1 /\ x.size = N /\ x.writes = 1..N /\ x.wrong = {}

Init == /\ conduct \in [1..K -> Conduct] /\ i = 1 /\ pc = "compress" /\ verdict = ""
        /\ buf = [p \in 1..N |-> 0] /\ size = 0
Compress == /\ pc = "compress" /\ verdict = ""
            /\ IF i > K THEN verdict' = "success" /\ UNCHANGED <<conduct, i, pc, buf, size>>
               ELSE IF conduct[i].comp = 0 THEN verdict' = "failure" /\ UNCHANGED <<conduct, i, pc, buf, size>>
               ELSE pc' = "clear" /\ UNCHANGED <<conduct, i, buf, size, verdict>>
\* something else than the file everywhere
Clear == pc = "clear" /\ pc' = "decompress" /\ buf' = [p \in 1..N |-> -p] /\ UNCHANGED <<conduct, i, size, verdict>>
Decompress == /\ pc = "decompress" /\ pc' = "compare" /\ size' = conduct[i].size
              /\ buf' = [p \in 1..N |-> IF p \notin conduct[i].writes THEN buf[p] ELSE IF p \in conduct[i].wrong THEN 100 + p ELSE File[p]]
              /\ UNCHANGED <<conduct, i, verdict>>
Compare == /\ pc = "compare" /\ verdict = ""
           /\ IF size = N /\ buf = File THEN pc' = "compress" /\ i' = i + 1 /\ UNCHANGED <<conduct, buf, size, verdict>>
              ELSE verdict' = "failure" /\ UNCHANGED <<conduct, i, pc, buf, size>>
Next == Compress \/ Clear \/ Decompress \/ Compare
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Honest == /\ (verdict = "success" => \A k \in 1..K : Good(conduct[k]))
          /\ (verdict = "failure" => \E k \in 1..K : ~Good(conduct[k]))
Decides == <>(verdict # "")
=============================================================================
