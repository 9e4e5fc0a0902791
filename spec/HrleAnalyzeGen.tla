--------------------------- MODULE HrleAnalyzeGen ---------------------------
(* Files to analyze.  Mode "grid": every file of up to 9 (deep: 11) bytes of 0 and 1; a run of    *)
(* every width at every small distance from the end of the file, with lengths about the limits of  *)
(* the tables; a few large ones.  Mode "mix" (simulation): runs, symbols that recur, and noise.     *)
EXTENDS HrleDraw, FiniteSets, IOUtils

Mode   == IF "HRK_MODE" \in DOMAIN IOEnv THEN IOEnv.HRK_MODE ELSE "grid"
Deep   == IOEnv.HRK_DEEP = "1"
Shard  == atoi(IOEnv.HRK_SHARD)
Shards == atoi(IOEnv.HRK_SHARDS)

VARIABLES plan, n
vars == <<plan, n>>
Job(only, p) == PrintT("JOB " \o Str(only) \o p)

Symbol(w, z) == [k \in 1..w |-> IF z = 0 THEN 0 ELSE IF z = 1 THEN (k * 37 + 5) % 256 ELSE (k % 2)]
Small == UNION {[1..k -> {0, 1}] : k \in 1..(IF Deep THEN 11 ELSE 9)}
Lens(w) == {w, w + 1, 2 * w, 2 * w + 1, 3 * w} \cup (IF w \in {1, 2, 3, 16} \/ Deep THEN {63, 64, 65, 66, 127, 128, 129} ELSE {})
EdgeOf(w) == {" s" \o Str(w + h) \o (IF h > 0 THEN " U" \o Str(h) ELSE "") \o " R" \o Str(k + w) \o ":" \o Hex(Symbol(w, z)) \o (IF t > 0 THEN " U" \o Str(t) ELSE "") :
          h \in (IF Deep THEN {0, 1, 2, 3, 16} ELSE {0, 3}), z \in (IF Deep THEN 0..2 ELSE {0, 1}), k \in Lens(w), t \in (IF Deep THEN {0, 1, 2, 15, 16} ELSE {0, 1})}
Big == {<<3, " s1 U300 R40000:414243 U20000 R9:00 U33000 R1000:41 U2">>, <<16, " R40001:4142434445464748494a4b4c4d4e4f50 U3 R20:41">>}
       \cup (IF Deep THEN {<<5, " U70000 R70001:4142434445 U1">>, <<4, " R140000:01020304 U99 R70000:41 U66000 R300:4142 U1">>} ELSE {})

InitGrid == /\ n = 0
            /\ \/ \E d \in Small : (Len(d) * 3 + d[1] + 2 * d[Len(d)] + (IF Len(d) > 4 THEN d[4] * 4 ELSE 0)) % Shards = Shard /\ plan = H(d) /\ Job(0, H(d))
               \/ \E w \in {v \in 1..16 : v % Shards = Shard} : \E p \in EdgeOf(w) : plan = p /\ Job(0, p)
               \/ \E b \in Big : b[1] % Shards = Shard /\ plan = b[2] /\ Job(b[1], b[2])

Piece(t) ==
  LET w == R(t, 1, 1, 16)
      sz == R(t, 2, 0, 99)
      len == IF sz < 60 THEN R(t, 3, 1, 40) ELSE IF sz < 90 THEN R(t, 3, 30, 140) ELSE R(t, 3, 100, 600)
      sym == [k \in 1..w |-> R(t, 20 + k, 0, 2) * R(t, 19, 1, 100)]
  IN CASE R(t, 4, 1, 9) = 1 -> " s" \o Str(At(t, 5)) \o " U" \o Str(len)
       [] R(t, 4, 1, 9) = 2 -> " s" \o Str(At(t, 5)) \o " N" \o Str(len)
       [] R(t, 4, 1, 9) = 3 -> " s" \o Str(At(t, 5)) \o " A" \o Str(R(t, 6, 2, 4)) \o ":" \o Str(len)
       [] R(t, 4, 1, 9) \in {4, 5} -> " R" \o Str(len) \o ":" \o Hex(sym)
       [] R(t, 4, 1, 9) = 6 -> " s" \o Str(At(t, 5)) \o " Q" \o Str(R(t, 6, 2, 30)) \o ":" \o Str(len) \o ":" \o Str(R(t, 7, 1, 8))
       [] R(t, 4, 1, 9) = 7 -> " s" \o Str(At(t, 5)) \o " P" \o Str(w) \o ":" \o Str(R(t, 6, 1, 24)) \o ":" \o Str(len + 60) \o ":" \o Str(R(t, 7, 1, 6))
       [] R(t, 4, 1, 9) = 8 -> " s" \o Str(At(t, 5)) \o " G" \o Str(w) \o ":" \o Str(R(t, 6, 0, 20)) \o ":" \o Str(R(t, 7, 2, 30) + w) \o ":" \o Str(R(t, 8, 1, 9))
       [] OTHER -> " R" \o Str(R(t, 3, 1, 70)) \o ":00"
InitMix == n = 0 /\ plan = ""
NextMix == /\ n < 12
           /\ \E t \in Tape(n) :
                /\ plan' = plan \o Piece(t)
                /\ n' = (IF n >= 1 /\ Chance(t, 9, 20) THEN 12 ELSE n + 1)
                /\ (n' >= 12 => Job(0, plan'))

Init == IF Mode = "grid" THEN InitGrid ELSE InitMix
Next == IF Mode = "grid" THEN UNCHANGED vars ELSE NextMix
=============================================================================
