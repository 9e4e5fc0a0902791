---------------------------- MODULE HrleFuzzModel ----------------------------
(* HrleFuzz goes through its whole space: the k-th input is the state of rank k, so no state comes *)
(* twice and none is left out.                                                                       *)
EXTENDS HrleFuzz
VARIABLES s, k, done
vars == <<s, k, done>>
Init == s = First /\ k = 0 /\ done = FALSE
Next == \/ ~Last(s) /\ s' = Succ(s) /\ k' = k + 1 /\ UNCHANGED done
        \/ Last(s) /\ ~done /\ done' = TRUE /\ UNCHANGED <<s, k>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
ValidState == Valid(s)
Ordered == Rank(s) = k
Complete == done => k = All - 1
Finishes == <>done
ThreeLengths == <<1, 2, 5>>
=============================================================================
