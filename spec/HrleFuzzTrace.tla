---------------------------- MODULE HrleFuzzTrace ----------------------------
(* The inputs the real fuzzer hands to the codecs, in order, against HrleFuzz.  One event per       *)
(* input: its size, how many codec calls saw it, and its bytes in the pack (of a long one the first   *)
(* e.h and the last e.t); a last event says how the run ended.                                        *)
EXTENDS HrlePack, HrleToolCodecs, TLC, TLCExt, IOUtils, Json

Prop   == IOEnv.HRK_PROP
Events == ndJsonDeserialize(IOEnv.HRK_EVENTS)
NEv    == Len(Events)
Range(q) == {q[k] : k \in DOMAIN q}

VARIABLES l, st, sym, rej, cnt
vars == <<l, st, sym, rej, cnt>>

Job == Events[1]                      \* [sections, codecs called for the first input]
SectionsOf == Job.sections
L0 == INSTANCE HrleFuzz WITH Sections <- 1, Lengths <- <<1>>, Largest <- 1
Lens == L0!RealLengths
F == INSTANCE HrleFuzz WITH Sections <- SectionsOf, Lengths <- Lens, Largest <- 16

Comps == {ToolCodecs[k].comp : k \in DOMAIN ToolCodecs} \ {""}
Decs == {ToolCodecs[k].dec : k \in DOMAIN ToolCodecs} \ {""}
Pairs == Cardinality({k \in DOMAIN ToolCodecs : ToolCodecs[k].comp # ""})

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
\* what is visible of section i: [0, x) at its start, from y on at its end (relative to the section)
HeadOf(e, a, n) == Max2(0, Min2(n, e.h - a))
TailFrom(e, a) == Max2(0, e.n - e.t - a)
Rotated(q, k) == [j \in 1..Len(q) |-> q[((j - 1 + k) % Len(q)) + 1]]
\* the symbol as far as the first section that shows it, completed by what is known already
Shown(e, s) ==
  LET R == {i \in 1..SectionsOf : F!Repeats(s, i) /\ HeadOf(e, F!Offset(s, i), F!Bytes(s, i)) > 0}
      best == CHOOSE i \in R : \A j \in R : HeadOf(e, F!Offset(s, i), F!Bytes(s, i)) >= HeadOf(e, F!Offset(s, j), F!Bytes(s, j))
  IN IF R = {} THEN <<>>
     ELSE [k \in 1..Min2(s.size, HeadOf(e, F!Offset(s, best), F!Bytes(s, best))) |-> PackByte(e.at + F!Offset(s, best) + k - 1)]

Merge(q) == [k \in 1..16 |-> IF k <= Len(q) /\ sym[k] = -1 THEN q[k] ELSE sym[k]]

Section(e, s, i, y) ==
  LET a == F!Offset(s, i)
      n == F!Bytes(s, i)
      h == HeadOf(e, a, n)
      b == TailFrom(e, a)
      z == SubSeq(y, 1, s.size)
      known == \A k \in 1..s.size : z[k] # -1
  IN IF F!Repeats(s, i) THEN
       IF (known => /\ PackRun(e.at + a, h, z)
                    /\ (e.t > 0 /\ b < n => PackRun(e.at + e.h + (a + b - (e.n - e.t)), n - b, Rotated(z, b % s.size))))
       THEN {} ELSE {"a section does not repeat the symbol"}
     ELSE IF h >= 32 /\ Cardinality({PackByte(e.at + a + k) : k \in 0..(h - 1)}) < 8 THEN {"a section is not noise"} ELSE {}

Input(e) ==
  IF st = <<>> THEN {"an input after the last one"}
  ELSE LET s == st[1] IN
    IF e.n # F!Size(s) THEN {"another size than that of the next combination"}
    ELSE (IF e.comp = Pairs /\ e.dec = Pairs /\ e.same = 1 /\ e.intact = 1 THEN {} ELSE {"not every codec got this input"})
         \cup UNION {UNION {Section(e, s, i, y) : i \in 1..SectionsOf} : y \in {Merge(Shown(e, s))}}
End(e) ==
  IF e.ret = 1 THEN (IF st = <<>> THEN {} ELSE {"ends before the last combination"})
  ELSE IF e.ret = -1 THEN {} ELSE {"ends with an error"}
Begin(e) == IF Range(e.comps) = Comps /\ Range(e.decs) = Decs THEN {} ELSE {"other codecs than those of the tool"}

Judge(e) == CASE e.k = "B" -> Begin(e) [] e.k = "I" -> Input(e) [] OTHER -> End(e)
Init == l = 1 /\ st = <<F!First>> /\ sym = [k \in 1..16 |-> -1] /\ rej = 0 /\ cnt = 0
After(e, w) ==
  IF e.k # "I" \/ st = <<>> THEN UNCHANGED <<st, sym>>
  ELSE /\ st' = (IF F!Last(st[1]) THEN <<>> ELSE <<F!Succ(st[1])>>)
       /\ sym' = (IF w = {} THEN Merge(Shown(e, st[1])) ELSE sym)
Step(e, w) ==
  /\ \A x \in w : PrintT(<<"REJECT", Prop, e.id, "fuzzer", x>>)
  /\ rej' = rej + (IF w = {} THEN 0 ELSE 1) /\ cnt' = cnt + 1 /\ l' = (IF rej' >= 3 THEN NEv + 1 ELSE l + 1)
  /\ After(e, w)
Next == l <= NEv /\ \E w \in {Judge(Events[l])} : Step(Events[l], w)
Finish == l > NEv => PrintT(<<"CONSUMED", NEv, rej, 0, cnt, 0>>)
View == l
=============================================================================
