-------------------------- MODULE HrleAnalyzeTrace --------------------------
(* Reports of the real tool (--analyze) against HrleAnalyze.  An event is one report: the file's  *)
(* bytes are in the pack at e.at, e.n of them; e.w has one record per width, the tables with the   *)
(* cells that are not 0.                                                                            *)
EXTENDS HrlePack, TLC, TLCExt, IOUtils, Json, FiniteSetsExt

Prop   == IOEnv.HRK_PROP
Events == ndJsonDeserialize(IOEnv.HRK_EVENTS)
NEv    == Len(Events)

VARIABLES l, base, rej, cnt
vars == <<l, base, rej, cnt>>

S(x, y, k) == PackSame(base + x, base + y, k)
Z(x, k) == PackRun(base + x, k, <<0>>)
An == INSTANCE HrleAnalyze WITH Same <- S, Zero <- Z

Abs(x) == IF x < 0 THEN -x ELSE x
\* v (in 1/u per cent) is what count of total amounts to, as printed
Shows(v, u, count, total) == 2 * Abs(v * total - count * 100 * u) <= total + 4
Count(q, T(_)) == Cardinality({k \in DOMAIN q : T(q[k])})
\* a list of <<cell, value>> of the cells that are not 0: the value of a cell
Cells(t) == {t[k][1] : k \in DOMAIN t}
Value(t, c) == LET is == {k \in DOMAIN t : t[k][1] = c} IN IF is = {} THEN 0 ELSE t[CHOOSE k \in is : TRUE][2]

\* a column of counts: cell f(x) has as many as there are x in q
Counts(name, t, q, f(_), lo, hi) ==
  LET want == {f(q[k]) : k \in DOMAIN q} \cap (lo..hi)
  IN {name \o ": " \o ToString(c) : c \in {d \in want \cup Cells(t) : Value(t, d) # Count(q, LAMBDA x : f(x) = d)}}
\* a table of percentages of total
Shares(name, t, u, q, f(_), total) ==
  IF total = 0 THEN {}
  ELSE {name \o ": " \o ToString(c) : c \in {d \in {f(q[k]) : k \in DOMAIN q} \cup Cells(t) : ~Shows(Value(t, d), u, Count(q, LAMBDA x : f(x) = d), total)}}
Number(name, v, want) == IF v = want THEN {} ELSE {name}

Bits(x) == An!Log2(x) + 1
Id(x) == x
BitCell(p) == An!BitCell(p)[1] * 16 + An!BitCell(p)[2]
DiffCell(p) == An!DiffCell(p)[1] * 32 + An!DiffCell(p)[2]

Part(e, a, r, w) ==
  LET total == Len(a.runs) IN
  Number("number of runs", r.count, total)
  \cup Number("length of the runs", r.len, An!Total(a.runs))
  \cup Number("length of the gaps", r.empty, An!Total(a.gaps))
  \cup (IF Shows(r.share, 100, An!Total(a.runs), e.n) THEN {} ELSE {"share of the runs"})
  \cup Counts("runs by bits", r.runBits, a.runs, Bits, 1, 64)
  \cup Counts("gaps by bits", r.gapBits, a.gaps, Bits, 1, 64)
  \cup Counts("runs by length", r.runLen, a.runs, Id, 1, 64)
  \cup Counts("gaps by length", r.gapLen, a.gaps, Id, 1, 64)
  \cup Counts("recurring symbols", r.ref, a.ranks, Id, 1, 16)
  \cup Shares("share of recurring symbols", r.refShare, 1000, SelectSeq(a.ranks, LAMBDA x : x <= 16), Id, total)
  \cup Shares("gap bits against run bits", r.bits, 10, a.pairs, BitCell, total)
  \cup Shares("gap difference against run difference", r.diff, 10, a.pairs, DiffCell, total)
Byte(i) == PackByte(base + i)
Whole(e, a) ==
  Shares("histogram", e.hist, 100, [k \in 1..e.n |-> k - 1], Byte, e.n)
  \cup Shares("histogram of the runs", e.runHist, 100, a.starts, Byte, Len(a.runs))

One(e, r) ==
  LET w == r.w IN
  UNION {{"width " \o ToString(w) \o " " \o x : x \in Part(e, a, r.all, w)} \cup (IF w = 1 THEN Whole(e, a) ELSE {}) : a \in {An!Scan(e.n, w, FALSE)}}
  \cup UNION {{"width " \o ToString(w) \o " aligned " \o x : x \in Part(e, a, r.aligned, w)} : a \in {An!Scan(e.n, w, TRUE)}}

Judge(e) ==
  IF e.exit # 0 THEN {"ended with an error"}
  ELSE IF e.total # e.n THEN {"number of bytes"}
  ELSE IF {e.w[k].w : k \in DOMAIN e.w} # 1..16 THEN {"a width is missing"}
  ELSE IF \E k \in DOMAIN e.w : e.w[k].rows # 64 THEN {"rows are missing"}
  ELSE UNION {One(e, e.w[k]) : k \in {j \in DOMAIN e.w : e.only = 0 \/ e.w[j].w \in {1, 2, e.only}}}

Init == l = 1 /\ base = (IF NEv = 0 THEN 0 ELSE Events[1].at) /\ rej = 0 /\ cnt = 0
Step(e, w) ==
  /\ \A x \in w : PrintT(<<"REJECT", Prop, e.id, "analyze", x>>)
  /\ rej' = rej + (IF w = {} THEN 0 ELSE 1) /\ cnt' = cnt + 1 /\ l' = l + 1
  /\ base' = IF l < NEv THEN Events[l + 1].at ELSE base
Next == l <= NEv /\ \E w \in {Judge(Events[l])} : Step(Events[l], w)
Finish == l > NEv => PrintT(<<"CONSUMED", NEv, rej, 0, cnt, 0>>)
View == l
=============================================================================
