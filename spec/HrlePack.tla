------------------------------ MODULE HrlePack ------------------------------
(* The bytes the real code consumed and produced, as one flat sequence ("pack") that the   *)
(* harness writes next to its event trace.  PackByte is the only primitive; every other    *)
(* operator is defined by it.  HrlePack.java gives TLC a faster implementation of exactly  *)
(* these definitions; HrleSelf.tla has TLC compare the two.                                *)
EXTENDS Integers, Sequences, FiniteSets

\* the byte at offset i (read from the file named by $HRK_PACK)
PackByte(i) == CHOOSE b \in 0..255 : TRUE

\* n bytes from a equal n bytes from b
PackSameDef(a, b, n) == \A k \in 0..(n - 1) : PackByte(a + k) = PackByte(b + k)
PackSame(a, b, n) == PackSameDef(a, b, n)

\* n bytes from a are the symbol repeated, the last repetition possibly cut off
PackRunDef(a, n, sym) == \A k \in 0..(n - 1) : PackByte(a + k) = sym[(k % Len(sym)) + 1]
PackRun(a, n, sym) == PackRunDef(a, n, sym)

\* the first position in from..to-1 whose byte is in S, otherwise `to`
PackFindDef(from, to, S) ==
  IF \A k \in from..(to - 1) : PackByte(k) \notin S THEN to
  ELSE CHOOSE k \in from..(to - 1) : PackByte(k) \in S /\ \A j \in from..(k - 1) : PackByte(j) \notin S
PackFind(from, to, S) == PackFindDef(from, to, S)

(* Move-to-front rank of the byte at base+i within its lane.  Lane = i % lanes, each lane   *)
(* starts with the list 0..255.  A value seen before has as many values in front of it as   *)
(* distinct values were seen since; a new value has moved back once per distinct larger     *)
(* value already seen.                                                                      *)
LaneRankDef(base, i, lanes) ==
  LET v     == PackByte(base + i)
      prev  == {j \in 0..(i - 1) : j % lanes = i % lanes}
      same  == {j \in prev : PackByte(base + j) = v}
      last  == CHOOSE j \in same : \A k \in same : k <= j
  IN IF same # {}
     THEN Cardinality({PackByte(base + j) : j \in {k \in prev : k > last}})
     ELSE v + Cardinality({w \in {PackByte(base + j) : j \in prev} : w > v})
LaneRank(base, i, lanes) == LaneRankDef(base, i, lanes)

\* out[i] is the lane rank of in[i] for all i < n
PackMtfDef(in, out, n, lanes) == \A i \in 0..(n - 1) : PackByte(out + i) = LaneRankDef(in, i, lanes)
PackMtf(in, out, n, lanes) == PackMtfDef(in, out, n, lanes)

\* out is in with every byte replaced by its bitwise difference to the byte `w` before it
XorByte(a, b) == LET bit(x, k) == (x \div (2 ^ k)) % 2
                     s[k \in 0..8] == IF k = 0 THEN 0 ELSE s[k - 1] + (IF bit(a, k - 1) = bit(b, k - 1) THEN 0 ELSE 2 ^ (k - 1))
                 IN s[8]
PackDeltaDef(in, out, n, w) ==
  \A i \in 0..(n - 1) :
    PackByte(out + i) = IF i >= n - (n % w) THEN PackByte(in + i)     \* an incomplete last word is copied
                        ELSE IF i < w THEN PackByte(in + i)
                        ELSE XorByte(PackByte(in + i), PackByte(in + i - w))
PackDelta(in, out, n, w) == PackDeltaDef(in, out, n, w)
=============================================================================
