---------------------------- MODULE HrleIsaTrace ----------------------------
(* Judges what the real code did on an emulated machine: an instruction it reached must be   *)
(* allowed there.                                                                             *)
EXTENDS HrleIsa, TLC, IOUtils, Json

Prop   == IOEnv.HRK_PROP
Events == ndJsonDeserialize(IOEnv.HRK_EVENTS)
NEv    == Len(Events)
Seqs(s) == {s[k] : k \in DOMAIN s}
Machine(e) == [leaf |-> e.leaf, cpu |-> Seqs(e.cpu), osx |-> e.osx, xcr |-> Seqs(e.xcr) \ {0}]
Known(e) == Machine(e) \in Machines
Text(S) == IF S = {} THEN "?" ELSE CHOOSE x \in S : TRUE
Judge(e) == {"executed " \o Text(Seqs(t.x)) \o " (" \o t.f \o ")" : t \in {x \in Seqs(e.t) : x.x = <<>> \/ ~(Seqs(x.x) \subseteq Allowed(Machine(e), e.cut))}}

VARIABLES l, rej, cnt
tvars == <<l, rej, cnt>>
TInit == l = 1 /\ rej = 0 /\ cnt = 0
TNext ==
  /\ l <= NEv
  /\ LET e == Events[l]
         j == Judge(e)
     IN /\ Known(e)
        /\ \A y \in j : PrintT(<<"REJECT", Prop, e.id, e.c, y>>)
        /\ rej' = rej + (IF j = {} THEN 0 ELSE 1)
        /\ cnt' = cnt + e.calls
  /\ l' = l + 1
View == tvars
TInv == rej <= l
Finish == l = NEv + 1 => PrintT(<<"CONSUMED", NEv, NEv, 0, cnt, rej>>)
=============================================================================
