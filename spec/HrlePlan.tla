------------------------------ MODULE HrlePlan ------------------------------
(* Inputs for the encoders.  Every behaviour of this state machine is one input, put        *)
(* together from literals, runs of whole and cut symbols, runs with one wrong byte, and      *)
(* random material, with lengths drawn around the places where the stream formats change     *)
(* form.  Run by TLC in simulation mode; a finished input is printed as a job for the         *)
(* harness.  In mode "runs" (property C11) inputs are literals without repetition and long     *)
(* runs, and the job carries the size such an input may at most take.                         *)
EXTENDS HrleFormat, HrleCodecs, HrleDraw, IOUtils

CONSTANT MaxLen

Mode  == IF "HRK_MODE" \in DOMAIN IOEnv THEN IOEnv.HRK_MODE ELSE "mix"
Only  == IF "HRK_GEN" \in DOMAIN IOEnv THEN IOEnv.HRK_GEN ELSE "all"
Names == IF Mode = "tables" THEN Tables \cup {"rle8m_any"} ELSE
         {k \in Offered \cup (IF Only = "blocks" THEN Extra \ Tables ELSE {}) :
            /\ Only = "all" \/ Codecs[k].fam = Only \/ (Only = "blocks" /\ Codecs[k].fam \in {"le", "lem"})
                            \/ (Only = "transforms" /\ Codecs[k].fam \in {"mtf", "delta"})
            /\ Mode = "runs" => Codecs[k].fam \notin {"mtf", "delta"}}

VARIABLES name, left, pool, body, n, x, style, done
vars == <<name, left, pool, body, n, x, style, done>>
c == Codecs[name]
Z == IF c.fam \in {"plain", "packed", "lut", "short"} THEN c.size ELSE 1

Around == <<1, 2, 3, 4, 7, 8, 14, 15, 16, 17, 18, 24, 30, 31, 32, 33, 34, 46, 47, 48, 62, 63, 64, 65, 66, 126, 127, 128, 129, 130,
            254, 255, 256, 257, 258, 510, 511, 512, 513, 514, 1022, 1023, 1024, 1025, 1026, 2046, 2047, 2048, 2049, 2050>>
Large  == <<65530, 65532, 65533, 65534, 65535, 65536, 65537, 65538, 65540>>

\* a new symbol (places i..i+3)
SymBytes(t, i) ==
  LET r == R(t, i, 1, 7)
      a == R(t, i + 1, 0, 255)
      d == R(t, i + 2, 1, 255)
  IN CASE r = 1 -> [k \in 1..Z |-> a]
       [] r = 2 -> [k \in 1..Z |-> IF k = Z THEN d ELSE a]
       [] r = 3 -> [k \in 1..Z |-> IF k = 1 THEN d ELSE a]
       [] r = 4 -> [k \in 1..Z |-> IF k % 2 = 0 THEN d ELSE a]
       [] r = 5 -> [k \in 1..Z |-> InitBytes[((a + k * d) % 7) + 1]]
       [] r = 6 -> [k \in 1..Z |-> InitBytes[(a % 7) + 1]]
       [] OTHER -> [k \in 1..Z |-> (a + k * d + k * k * 7) % 256]
Rotate(s, k) == [j \in 1..Len(s) |-> s[((j - 1 + k) % Len(s)) + 1]]

\* lengths (places i..i+2)
LitLen(t, i) ==
  LET r == R(t, i, 1, 100)
  IN IF r <= 25 THEN R(t, i + 1, 0, 6) ELSE IF r <= 50 THEN R(t, i + 1, 7, 70)
     ELSE IF r <= 85 THEN Max(0, Pick(t, i + 1, Around) + R(t, i + 2, -3, 3)) ELSE IF r <= 96 \/ n > 4000 \/ Mode = "tables" THEN R(t, i + 1, 1, IF Mode = "tables" THEN 600 ELSE 3000)
     ELSE Pick(t, i + 1, Large) + R(t, i + 2, -3, 3)
RunLen(t, i) ==                          \* in bytes
  LET r == R(t, i, 1, 100)
      cut == IF R(t, i + 2, 1, 10) <= 6 THEN 0 ELSE R(t, i + 2, 0, Z - 1)
      u == IF c.sym THEN Z ELSE 1
  IN IF r <= 35 THEN R(t, i + 1, 1, 8) * Z + cut ELSE IF r <= 60 THEN R(t, i + 1, 1, 3 * Z + 12)
     ELSE IF r <= 85 THEN Max(1, (Pick(t, i + 1, Around) + R(t, i + 2, -2, 4)) * u + cut) ELSE IF r <= 96 \/ n > 4000 \/ Mode = "tables" THEN R(t, i + 1, 1, 900) + cut
     ELSE (Pick(t, i + 1, Large) + R(t, i + 2, -2, 3) + c.min) * (IF Z > 8 THEN 1 ELSE u)

Noise(t, i, k) ==
  IF k = 0 THEN ""
  ELSE LET r == R(t, i, 1, 10)
       IN " s" \o Str(At(t, i + 1)) \o (IF r <= 6 THEN " U" \o Str(k) ELSE IF r <= 8 THEN " N" \o Str(k) ELSE " A" \o Str(R(t, i + 1, 1, 5)) \o ":" \o Str(k))
Run(sym, k) == IF k = 0 THEN "" ELSE " R" \o Str(k) \o ":" \o Hex(sym)

-----------------------------------------------------------------------------
Init == /\ name \in Names
        /\ left = -1 /\ pool = <<>> /\ body = "" /\ n = 0 /\ x = 0 /\ style = 0 /\ done = FALSE

Begin ==
  /\ left = -1
  /\ \E t \in Tape(n) :
     \E sg \in {Mode = "runs" /\ (c.single \/ c.fam \in {"le", "lem"})} :
     /\ pool' = IF c.single \/ sg THEN <<SymBytes(t, 1)>>
                ELSE <<SymBytes(t, 1), SymBytes(t, 5), SymBytes(t, 9), SymBytes(t, 13), SymBytes(t, 17), SymBytes(t, 21), SymBytes(t, 25), SymBytes(t, 29), SymBytes(t, 33)>>
     /\ style' = R(t, 40, 1, 10)
     /\ left' = LET r == R(t, 41, 1, 10) IN IF Mode = "period" THEN (IF r <= 7 THEN R(t, 42, 1, 6) ELSE R(t, 42, 6, 16)) ELSE IF r <= 3 THEN R(t, 42, 0, 3) ELSE IF r <= 8 THEN R(t, 42, 2, 14) ELSE R(t, 42, 14, 40)
  /\ UNCHANGED <<name, body, n, x, done>>

\* `w` of the pool's symbols are in use
Width(t, i) == IF c.single THEN 1 ELSE Min(Len(pool), R(t, i, 1, 1 + style))

Add(text, k) == body' = body \o text /\ n' = n + k
Put ==
  /\ left > 0 /\ n < MaxLen /\ style # 1 /\ Mode \in {"mix", "tables"}
  /\ \E t \in Tape(n) :
     \E k \in {R(t, 1, 1, 20)}, s \in {pool[R(t, 2, 1, Width(t, 3))]}, ll \in {LitLen(t, 4)}, rl \in {RunLen(t, 7)}, ph \in {R(t, 10, 0, Z - 1)} :
       CASE k <= 11 -> Add(Noise(t, 11, ll) \o Run(s, rl), ll + rl)
         [] k \in 12..13 -> Add(Run(Rotate(s, ph), rl), rl)                                   \* starts in the middle of a symbol
         [] k = 14 -> Add(Noise(t, 11, ll), ll)
         [] k = 15 -> Add(Run(s, Max(rl, 3)) \o " X-" \o Str(R(t, 13, 1, Min(Max(rl, 3), 70))) \o ":" \o Hex(<<R(t, 14, 0, 255)>>), Max(rl, 3))
         [] k = 16 -> Add(Noise(t, 11, Z) \o Run(s, Z) \o Run(pool[1], Z) \o Run(s, 2 * Z), 5 * Z)       \* single and double symbols
         [] k = 17 -> Add(Run(s, rl) \o Noise(t, 11, 1 + ph) \o Run(s, rl), 2 * rl + 1 + ph)  \* the same symbol again
         [] k = 18 -> Add(" s" \o Str(At(t, 15)) \o " Q" \o Str(R(t, 16, 1, 9)) \o ":" \o Str(ll + 5) \o ":" \o Str(R(t, 17, 1, 40)), ll + 5)
         [] k = 19 -> Add(" s" \o Str(At(t, 15)) \o " P" \o Str(Z) \o ":" \o Str(R(t, 16, 1, 9)) \o ":" \o Str(ll + 5) \o ":" \o Str(R(t, 17, 1, 12)), ll + 5)
         [] OTHER -> Add(Run(<<s[1]>>, rl), rl)
  /\ left' = left - 1
  /\ UNCHANGED <<name, pool, x, style, done>>

\* random material throughout, including very short inputs
Stat ==
  /\ left >= 0 /\ style = 1 /\ n = 0 /\ Mode \in {"mix", "tables"}
  /\ \E t \in Tape(n) :
     LET k == IF Chance(t, 1, 50) THEN R(t, 2, 1, 90) ELSE IF Chance(t, 3, 60) THEN R(t, 2, 50, 1500) ELSE R(t, 2, 1000, 12000)
         r == R(t, 4, 1, 5)
     IN Add(" s" \o Str(At(t, 5)) \o
            (CASE r = 1 -> " A" \o Str(Pick(t, 6, <<1, 2, 3, 5, 17, 100, 256>>)) \o ":" \o Str(k)
               [] r = 2 -> " Q" \o Str(Pick(t, 6, <<1, 2, 3, 9, 60, 256>>)) \o ":" \o Str(k) \o ":" \o Str(Pick(t, 7, <<1, 2, 3, 8, 40, 300>>))
               [] r = 3 -> " N" \o Str(k)
               [] OTHER -> " P" \o Str(Z) \o ":" \o Str(Pick(t, 6, <<1, 2, 3, 9, 60>>)) \o ":" \o Str(k) \o ":" \o Str(Pick(t, 7, <<1, 2, 3, 8, 40>>))), k)
  /\ left' = 0
  /\ UNCHANGED <<name, pool, x, style, done>>

(* Parameters (property C13): any number of sections; any table of run symbols and counts. *)
BitMap(rle) == [k \in 1..32 |-> LET b(i) == IF (8 * (k - 1) + i) \in rle THEN Pow2(i) ELSE 0
                                IN b(0) + b(1) + b(2) + b(3) + b(4) + b(5) + b(6) + b(7)]
Param(t) ==
  IF name = "rle8m_any"
  THEN ":" \o Str(IF Chance(t, 20, 50) THEN R(t, 21, 1, Max(n, 1) + 1) ELSE Pick(t, 22, <<1, 2, 3, 4, 5, 6, 7, 9, 16, 17, 31, 33, 63, 64, 65, 100, 127, 255, 256, 257, 1000>>))
  ELSE IF name \notin Tables THEN ""
  ELSE LET q    == Pick(t, 20, <<0, 1, 1, 2, 3, 5, 60, 200, 255, 256>>)
           base == R(t, 21, 0, 255)
           step == Pick(t, 22, <<1, 7, 131>>)
           rnd  == {(base + k * step) % 256 : k \in 1..q}
           used == {s[j] : s \in {pool[k] : k \in DOMAIN pool}, j \in {1}}
           rle  == IF Chance(t, 23, 40) THEN rnd ELSE IF Chance(t, 24, 50) THEN used ELSE rnd \cup {CHOOSE v \in used : TRUE}
           num  == Pick(t, 25, <<1, 2, 5, 31, 32, 33, 128, 200, 253, 254, 255, 256>>)
           mul  == Pick(t, 26, <<1, 3, 5, 77, 255>>)
           st   == R(t, 27, 0, 255)
       IN ":" \o Hex(BitMap(rle)) \o ":" \o Hex([k \in 1..num |-> (st + k * mul) % 256])

End ==
  /\ ~done /\ left >= 0 /\ Mode \in {"mix", "tables"} /\ (style = 1 => n > 0)
  /\ left = 0 \/ n >= MaxLen
  /\ \E t \in Tape(n) :
     \E k \in {IF n > 0 /\ Chance(t, 1, 40) THEN 0 ELSE IF n = 0 /\ Chance(t, 7, 20) THEN 1 ELSE Max(1, LitLen(t, 2))} :
       PrintT("JOB " \o name \o Param(t) \o body \o (IF style = 1 THEN "" ELSE Noise(t, 5, k)))
  /\ done' = TRUE /\ left' = 0
  /\ UNCHANGED <<name, pool, body, n, x, style>>

(* ---- C11: what the input may cost ---- *)
TokMax == CASE c.fam = "plain" -> Z + 10 [] c.fam = "packed" -> Z + 10 [] c.fam = "lut" -> Z + 10 [] c.fam = "short" -> Z + 11
            [] c.fam = "sh" -> 8 [] OTHER -> 0
\* a run: one token; what is not covered at its ends because of symbol boundaries
RunCost(len) ==
  CASE c.fam \in {"plain", "packed", "lut", "short"} -> TokMax + 2 * Z
    [] c.fam = "sh"   -> TokMax + 2
    [] c.fam = "mmtf" -> 64
    [] c.fam = "le"   -> 2 * (len \div c.min) + 4
    [] c.fam = "lem"  -> 2 * (len \div 255) + 4
    [] OTHER -> len
Fixed ==
  CASE c.fam \in {"plain", "packed", "lut", "short"} -> c.hdr + TokMax + Z
    [] c.fam = "sh"   -> 8 + 8 + 16
    [] c.fam = "mmtf" -> 8 + 8 + 32
    [] c.fam = "le"   -> 8 + 289
    [] c.fam = "lem"  -> 12 + 289 + 12 * c.lut
    [] OTHER -> 0
LitCost(k) == CASE c.fam = "sh" -> k + k \div 64 + 2 [] c.fam \in {"le", "lem"} -> k + k \div 16 + 4 [] OTHER -> k
MinLong == Max(64, 8 * Z)
PutLong ==
  /\ left >= 0 /\ n < MaxLen /\ Mode = "runs" /\ ~done /\ (left > 0 \/ n = 0)
  /\ \E t \in Tape(n) :
     \E s \in {pool[R(t, 2, 1, Len(pool))]}, ll \in {IF Chance(t, 3, 30) THEN 0 ELSE LitLen(t, 4)},
        rl \in {IF Chance(t, 7, 8) THEN R(t, 8, 1, 40) * 5003 ELSE Max(MinLong, RunLen(t, 9) * (IF Chance(t, 12, 50) THEN 1 ELSE Z))} :
       /\ Add((IF ll = 0 THEN "" ELSE " s" \o Str(At(t, 14)) \o " U" \o Str(ll)) \o Run(s, rl), ll + rl)
       /\ x' = x + LitCost(ll) + RunCost(rl)
  /\ left' = Max(0, left - 1)
  /\ UNCHANGED <<name, pool, style, done>>
EndLong ==
  /\ ~done /\ left = 0 /\ n > 0 /\ Mode = "runs"
  /\ \E t \in Tape(n) :
     \E k \in {IF Chance(t, 1, 40) THEN 0 ELSE LitLen(t, 2)} :
       PrintT("JOB " \o name \o " " \o Str(x + LitCost(k) + Fixed) \o body \o (IF k = 0 THEN "" ELSE " s" \o Str(At(t, 5)) \o " U" \o Str(k)))
  /\ done' = TRUE
  /\ UNCHANGED <<name, left, pool, body, n, x, style>>

PeriodBytes == 80000
(* ---- C04, mode "period": a few short pieces, over and over, so that what a piece costs adds up ---- *)
ShortLit(t, i) == LET r == R(t, i, 1, 10) IN IF r <= 2 THEN 0 ELSE IF r <= 8 THEN R(t, i + 1, 1, 9) ELSE R(t, i + 1, 10, 40)
ShortRun(t, i) == LET r == R(t, i, 1, 10) IN IF r <= 5 THEN R(t, i + 1, 1, 4) * Z ELSE IF r <= 9 THEN R(t, i + 1, 1, 3 * Z + 6) ELSE R(t, i + 1, 1, 70)
PutShort ==
  /\ left > 0 /\ Mode = "period"
  /\ \E t \in Tape(n) :
     \E s \in {pool[R(t, 2, 1, Width(t, 3))]}, ll \in {ShortLit(t, 4)}, rl \in {ShortRun(t, 7)}, ph \in {IF Chance(t, 10, 30) THEN R(t, 11, 0, Z - 1) ELSE 0} :
       Add((IF ll = 0 THEN "" ELSE " s" \o Str(At(t, 14)) \o " U" \o Str(ll)) \o Run(Rotate(s, ph), rl), ll + rl)
  /\ left' = left - 1
  /\ UNCHANGED <<name, pool, x, style, done>>
EndShort ==
  /\ ~done /\ left = 0 /\ Mode = "period" /\ n > 0
  /\ PrintT("JOB " \o name \o body \o " *" \o Str(1 + (PeriodBytes \div n)))
  /\ done' = TRUE
  /\ UNCHANGED <<name, left, pool, body, n, x, style>>

Next == Begin \/ Put \/ Stat \/ End \/ PutLong \/ EndLong \/ PutShort \/ EndShort
=============================================================================
