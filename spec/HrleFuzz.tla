------------------------------- MODULE HrleFuzz -------------------------------
(* The iterative fuzzer as a counter.  An input is Sections sections, noise and repetitions of a   *)
(* symbol in turn; a state says how long each is (a place in Lengths), which kind comes first, the  *)
(* size of the symbol, and whether the repetitions are counted in bytes or in whole symbols.        *)
EXTENDS Integers, Sequences
CONSTANTS Sections, Lengths, Largest     \* Lengths: increasing sequence of lengths; Largest: symbol size

N == Len(Lengths)
First == [at |-> [i \in 1..Sections |-> 1], order |-> 0, whole |-> FALSE, size |-> 1]
Last(s) == (\A i \in 1..Sections : s.at[i] = N) /\ s.order = 1 /\ s.size = Largest /\ (s.whole \/ s.size = 1)
AtEnd(s) == \A i \in 1..Sections : s.at[i] = N
\* the last section counts fastest
Count(at) == LET i == CHOOSE i \in 1..Sections : at[i] < N /\ \A j \in (i + 1)..Sections : at[j] = N
             IN [j \in 1..Sections |-> IF j < i THEN at[j] ELSE IF j = i THEN at[j] + 1 ELSE 1]
Succ(s) ==
  IF ~AtEnd(s) THEN [s EXCEPT !.at = Count(@)]
  ELSE IF s.order = 0 THEN [s EXCEPT !.at = First.at, !.order = 1]
  ELSE IF ~s.whole /\ s.size > 1 THEN [s EXCEPT !.at = First.at, !.order = 0, !.whole = TRUE]
  ELSE [s EXCEPT !.at = First.at, !.order = 0, !.whole = FALSE, !.size = @ + 1]

Repeats(s, i) == (i - 1 + s.order) % 2 = 1
Bytes(s, i) == IF Repeats(s, i) /\ s.whole THEN Lengths[s.at[i]] * s.size ELSE Lengths[s.at[i]]
RECURSIVE Offset(_, _)
Offset(s, i) == IF i = 1 THEN 0 ELSE Offset(s, i - 1) + Bytes(s, i - 1)
Size(s) == Offset(s, Sections + 1)

(* ---- the whole space, and the place of a state in it ---- *)
Kinds == {<<1, FALSE>>} \cup {<<k, w>> : k \in 2..Largest, w \in BOOLEAN}
Space == [at : [1..Sections -> 1..N], order : {0, 1}, whole : BOOLEAN, size : 1..Largest]
Valid(s) == s \in Space /\ <<s.size, s.whole>> \in Kinds
RECURSIVE Place(_, _)
Place(at, i) == IF i = 0 THEN 0 ELSE Place(at, i - 1) * N + at[i] - 1
Pow == Place([i \in 1..Sections |-> N], Sections) + 1
Rank(s) == ((IF s.size = 1 THEN 0 ELSE 2 * s.size - 3 + (IF s.whole THEN 1 ELSE 0)) * 2 + s.order) * Pow + Place(s.at, Sections)
All == (2 * Largest - 1) * 2 * Pow

(* ---- the lengths of the real one ---- *)
RECURSIVE Steps(_, _)
Steps(x, hi) == IF x > hi THEN <<>> ELSE <<x>> \o Steps((x * 17) \div 16, hi)
RealLengths == [k \in 1..280 |-> k] \o Steps(768, 8192) \o [k \in 1..33 |-> 65536 - 9 + k]
=============================================================================
