----------------------------- MODULE HrleAnalyze -----------------------------
(* What the tool's analysis (--analyze) counts in a file of n bytes, for a symbol width w,     *)
(* over all positions or only over those aligned to w.                                           *)
(*                                                                                               *)
(* A position repeats if the whole symbol there lies within the file and equals the symbol        *)
(* before it.  The positions fall into runs (of repeating ones) and gaps.  A run is as long as    *)
(* the bytes its symbols cover - aligned: as many symbols as it has - and a gap as its positions. *)
(*                                                                                               *)
(* Scan is the transition system: one step per position, in order.  HrleAnalyzeModel compares it  *)
(* with the runs and gaps as they are defined above, on every file up to a length.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Same(_, _, _),       \* w bytes from a equal w bytes from b
          Zero(_, _)           \* w bytes from a are zero

Remembered == 16
Nothing == -1                  \* the symbol remembered at the start: zeros

Match(n, w, i) == i + w <= n /\ Same(i, i - w, w)
First(w, al) == IF al THEN 1 ELSE w
\* the positions with a symbol before them
Positions(n, w, al) == IF n <= w THEN <<>> ELSE IF al THEN [k \in 1..((n - 1) \div w) |-> k * w] ELSE [k \in 1..(n - w) |-> w + k - 1]

Start == [cur |-> 0, non |-> 0, lastLen |-> 0, lastNon |-> 0, lastDiff |-> 0,
          runs |-> <<>>, gaps |-> <<>>, pairs |-> <<>>, ranks |-> <<>>, starts |-> <<>>, mtf |-> [k \in 1..Remembered |-> Nothing]]

Rank(mtf, i, w) == LET is == {k \in 1..Remembered : IF mtf[k] = Nothing THEN Zero(i, w) ELSE Same(i, mtf[k], w)}
                   IN IF is = {} THEN Remembered + 1 ELSE CHOOSE k \in is : \A j \in is : k <= j
ToFront(mtf, r, i) == [k \in 1..Remembered |-> IF k = 1 THEN i ELSE IF k <= r THEN mtf[k - 1] ELSE mtf[k]]

Begin(a, i, w, al, r) ==
  [a EXCEPT !.cur = First(w, al), !.non = 0, !.ranks = Append(@, r), !.starts = Append(@, i), !.mtf = ToFront(@, r, i),
            !.gaps = IF a.non > 0 THEN Append(@, a.non) ELSE @,
            !.lastDiff = IF a.non > 0 THEN a.non - a.lastLen ELSE @,
            !.lastNon = IF a.non > 0 THEN a.non ELSE @]
Leave(a) ==
  IF a.cur = 0 THEN [a EXCEPT !.non = @ + 1]
  ELSE [a EXCEPT !.runs = Append(@, a.cur), !.cur = 0, !.lastLen = a.cur, !.non = 1,
                 !.pairs = Append(@, [len |-> a.cur, gap |-> a.lastNon, gapDiff |-> a.lastDiff, lenDiff |-> a.cur - a.lastLen])]
Step(a, n, w, al, i) ==
  IF Match(n, w, i) THEN IF a.cur = 0 THEN Begin(a, i, w, al, Rank(a.mtf, i, w)) ELSE [a EXCEPT !.cur = @ + 1] ELSE Leave(a)
End(a) ==
  IF a.non > 0 THEN [a EXCEPT !.gaps = Append(@, a.non)]
  ELSE IF a.cur > 0 THEN [a EXCEPT !.runs = Append(@, a.cur)] ELSE a

Scan(n, w, al) == End(FoldLeft(LAMBDA a, i : Step(a, n, w, al, i), Start, Positions(n, w, al)))

\* bits needed for x > 0, less one
RECURSIVE Log2(_)
Log2(x) == IF x < 2 THEN 0 ELSE 1 + Log2(x \div 2)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* the cell of a run in the table of gap bits against run bits (0..15) and in that of differences (0..31)
BitCell(p) == <<Clamp(Log2(p.gap) - 1, 0, 15), Clamp(Log2(p.len) - 1, 0, 15)>>
DiffCell(p) == <<Clamp(p.gapDiff + 15, 0, 31), Clamp(p.lenDiff + 15, 0, 31)>>
Total(q) == FoldLeft(LAMBDA x, y : x + y, 0, q)
=============================================================================
