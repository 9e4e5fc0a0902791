-------------------------- MODULE HrleAnalyzeModel --------------------------
(* Every file of up to MaxLen bytes over a small alphabet, every width up to MaxWidth: the scan  *)
(* of HrleAnalyze finds exactly the runs and gaps there are.                                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxLen, MaxWidth, Alphabet

VARIABLES data, w, al, i, a, done
vars == <<data, w, al, i, a, done>>

S(x, y, k) == \A j \in 0..(k - 1) : data[x + j + 1] = data[y + j + 1]
Z(x, k) == \A j \in 0..(k - 1) : data[x + j + 1] = 0
An == INSTANCE HrleAnalyze WITH Same <- S, Zero <- Z

n == Len(data)
Pos == {p \in w..(n - 1) : ~al \/ p % w = 0}
Stride == IF al THEN w ELSE 1
Rep(p) == p + w <= n /\ \A j \in 0..(w - 1) : data[p + j + 1] = data[p - w + j + 1]
\* maximal stretches of positions that all repeat (or all do not), in order
Stretches(b) ==
  LET P == {p \in Pos : Rep(p) = b}
      heads == {p \in P : (p - Stride) \notin P}
      len(p) == CHOOSE k \in 1..n : (\A j \in 0..(k - 1) : (p + j * Stride) \in P) /\ (p + k * Stride) \notin P
      order(k) == CHOOSE p \in heads : Cardinality({q \in heads : q < p}) = k - 1
  IN [k \in 1..Cardinality(heads) |-> <<order(k), len(order(k))>>]
RunLen(s) == s[2] - 1 + An!First(w, al)

Init == /\ data \in UNION {[1..l -> Alphabet] : l \in 1..MaxLen}
        /\ w \in 1..MaxWidth /\ al \in BOOLEAN
        /\ i = 0 /\ a = An!Start /\ done = FALSE
Seq0 == An!Positions(n, w, al)
Advance == /\ i < Len(Seq0) /\ i' = i + 1 /\ a' = An!Step(a, n, w, al, Seq0[i + 1]) /\ UNCHANGED <<data, w, al, done>>
Finish == /\ i = Len(Seq0) /\ ~done /\ done' = TRUE /\ a' = An!End(a) /\ UNCHANGED <<data, w, al, i>>
Next == Advance \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every position so far is in exactly one run or gap
Accounted == ~done => An!Total(a.gaps) + (An!Total(a.runs) - Len(a.runs) * (An!First(w, al) - 1)) + a.non + (IF a.cur > 0 THEN a.cur - An!First(w, al) + 1 ELSE 0) = i
Exclusive == ~done => (a.cur = 0 \/ a.non = 0)
PosSet == {Seq0[k] : k \in DOMAIN Seq0} = Pos
Right == done =>
  LET r == Stretches(TRUE)
      g == Stretches(FALSE)
  IN /\ a.runs = [k \in DOMAIN r |-> RunLen(r[k])]
     /\ a.starts = [k \in DOMAIN r |-> r[k][1]]
     /\ a.gaps = [k \in DOMAIN g |-> g[k][2]]
     \* a run's neighbours: the gap before it (0: none) and the run before it (0: none)
     /\ \A k \in DOMAIN a.pairs :
          LET before == {j \in DOMAIN g : g[j][1] < r[k][1]}
              gap == IF before = {} THEN 0 ELSE g[CHOOSE j \in before : \A m \in before : m <= j][2]
              prev == IF k = 1 THEN 0 ELSE RunLen(r[k - 1])
          IN /\ a.pairs[k].len = RunLen(r[k]) /\ a.pairs[k].gap = gap
             /\ a.pairs[k].lenDiff = RunLen(r[k]) - prev
             /\ a.pairs[k].gapDiff = IF before = {} THEN 0 ELSE gap - prev
     \* all runs but one that lasts to the last position
     /\ Len(a.pairs) = Len(r) - (IF Pos # {} /\ Rep(Seq0[Len(Seq0)]) THEN 1 ELSE 0)
     \* the rank of a symbol: the number of distinct ones since it was last the symbol of a run, up to 16
     /\ \A k \in DOMAIN a.ranks :
          LET sym(p) == SubSeq(data, p + 1, p + w)
              s == sym(r[k][1])
              same == {j \in 1..(k - 1) : sym(r[j][1]) = s}
              last == CHOOSE j \in same : \A m \in same : m <= j
          IN IF same # {} THEN a.ranks[k] = 1 + Cardinality({sym(r[j][1]) : j \in {m \in 1..(k - 1) : m > last}})
             ELSE a.ranks[k] = IF \A j \in 1..w : s[j] = 0 THEN 1 + Cardinality({sym(r[j][1]) : j \in 1..(k - 1)}) ELSE 17
Finishes == <>done
=============================================================================
