------------------------------ MODULE HrleSelf ------------------------------
(* HrlePack.java against HrlePack.tla: TLC evaluates the definitions, and the operators as    *)
(* the other modules get them, on every combination of arguments within a small pack, and      *)
(* compares.  A second list-based reading of move-to-front is compared with LaneRank too.       *)
EXTENDS HrlePack, TLC
CONSTANT N                                        \* bytes of the pack
VARIABLES a, b
Init == a \in 0..(N - 1) /\ b \in 0..(N - 1)
Next == UNCHANGED <<a, b>>

Fit(p, n) == p + n <= N
Lens == 0..9
Bytes(p, n) == [k \in 1..n |-> PackByte(p + k - 1)]
Range(s) == {s[k] : k \in DOMAIN s}
\* move-to-front as it is usually told: a list per lane, the value found is moved to its front
List0 == [k \in 1..256 |-> k - 1]
At(l, v) == CHOOSE k \in 1..256 : l[k] = v
Front(l, v) == LET p == At(l, v) IN [k \in 1..256 |-> IF k = 1 THEN v ELSE IF k <= p THEN l[k - 1] ELSE l[k]]
Told(base, i, lanes) ==
  LET s[k \in 0..(i \div lanes)] == IF k = 0 THEN List0 ELSE Front(s[k - 1], PackByte(base + (i % lanes) + (k - 1) * lanes))
  IN At(s[i \div lanes], PackByte(base + i)) - 1

Same == \A n \in Lens : Fit(a, n) /\ Fit(b, n) => (PackSame(a, b, n) = PackSameDef(a, b, n))
Runs == \A n \in Lens, z \in 1..3 : Fit(a, n) /\ Fit(b, z) => (PackRun(a, n, Bytes(b, z)) = PackRunDef(a, n, Bytes(b, z)))
Find == \A z \in 0..2 : Fit(b, z) => (PackFind(a, b, Range(Bytes(b, z))) = PackFindDef(a, b, Range(Bytes(b, z))))
Rank == b <= 12 /\ Fit(a, b + 1) =>
          \A lanes \in {1, 2, 3} : LaneRank(a, b, lanes) = LaneRankDef(a, b, lanes) /\ (a % 4 = 0 => (LaneRank(a, b, lanes) = Told(a, b, lanes)))
Mtf == \A n \in Lens, lanes \in {1, 2} : Fit(a, n) /\ Fit(b, n) => (PackMtf(a, b, n, lanes) = PackMtfDef(a, b, n, lanes))
Delta == \A n \in Lens, w \in {1, 2, 3} : Fit(a, n) /\ Fit(b, n) => (PackDelta(a, b, n, w) = PackDeltaDef(a, b, n, w))
=============================================================================
