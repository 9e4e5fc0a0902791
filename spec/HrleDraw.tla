------------------------------ MODULE HrleDraw ------------------------------
(* Random choices and text for the generators (HrleGen: streams, HrlePlan: inputs, HrleCalls: calls). *)
EXTENDS Integers, Sequences, TLC

(* All random choices of a step come from one tape of random numbers, bound before use so that every *)
(* mention of a choice means the same choice.  R(t, i, a, b): a number in a..b from place i of tape t. *)
\* The tape is three random numbers; place i is a mixture of them (two rounds of a linear congruence).
D(i) == RandomElement(0..99) + 100 * RandomElement(0..99)
Tape(k) == {<<D(k), D(k), D(k)>>}
At(t, i) == LET u == (t[1] * 75 + i * 7919 + 11) % 65537
                v == (u * 1103 + t[2] * 613 + i) % 65537
            IN (v * 1931 + t[3] * 7) % 65537
R(t, i, a, b) == a + (At(t, i) % (b - a + 1))
Chance(t, i, pc) == R(t, i, 1, 100) <= pc
Pick(t, i, q) == q[R(t, i, 1, Len(q))]
HexD == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexB == [v \in 0..255 |-> HexD[(v \div 16) + 1] \o HexD[(v % 16) + 1]]
Hex(s) == LET h[k \in 0..Len(s)] == IF k = 0 THEN "" ELSE h[k - 1] \o HexB[s[k]] IN h[Len(s)]
H(s) == IF s = <<>> THEN "" ELSE " H" \o Hex(s)
\* `k` literal bytes: noise, or bytes that look like runs (uses places i..i+1)
Lit(t, i, k) ==
  IF k = 0 THEN ""
  ELSE LET r == R(t, i, 1, 10) IN
       IF r <= 7 THEN " s" \o ToString(At(t, i + 1)) \o " N" \o ToString(k)
       ELSE IF r = 8 THEN " R" \o ToString(k) \o ":00"
       ELSE " s" \o ToString(At(t, i + 1)) \o " A2:" \o ToString(k)

Str(k) == ToString(k)
=============================================================================
