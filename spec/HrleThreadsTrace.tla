-------------------------- MODULE HrleThreadsTrace --------------------------
(* Judges scheduled pairs of calls: each call gives what it gives alone. *)
EXTENDS Integers, Sequences, HrlePack, TLC, IOUtils, Json
Prop   == IOEnv.HRK_PROP
Events == ndJsonDeserialize(IOEnv.HRK_EVENTS)
NEv    == Len(Events)
Seqs(s) == {s[k] : k \in DOMAIN s}
AsAlone(t) == t.f = "" /\ t.r = t.sr /\ PackSame(t.o, t.so, t.r)
Why(t) == (IF t.op = "c" THEN "compression" ELSE "decompression") \o " with " \o t.c \o
          (IF t.f # "" THEN " did not return: " \o t.f ELSE IF t.r # t.sr THEN " returned another size than alone" ELSE " gave other bytes than alone")
Judge(e) == IF e.k # "S" THEN {} ELSE {Why(t) : t \in {x \in Seqs(e.th) : x.sf = "" /\ ~AsAlone(x)}}
VARIABLES l, rej
Init == l = 1 /\ rej = 0
Next == /\ l <= NEv
        /\ LET j == Judge(Events[l])
           IN /\ \A y \in j : PrintT(<<"REJECT", Prop, Events[l].id, Events[l].c, y>>)
              /\ rej' = rej + (IF j = {} THEN 0 ELSE 1)
        /\ l' = l + 1
View == <<l, rej>>
WalkInv == rej <= l
Finish == l = NEv + 1 => PrintT(<<"CONSUMED", NEv, NEv, 0, NEv, rej>>)
=============================================================================
