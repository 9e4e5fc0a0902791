----------------------------- MODULE HrleToolGen -----------------------------
(* Runs of the command line tool.  Mode "select": every sequence of up to D options (D = 2,   *)
(* deep: 3) after the ones that keep a run short, including unknown, repeated, contradictory    *)
(* and incomplete ones.  Mode "combine" (simulation): long sequences of options that are not     *)
(* refused.  Mode "faults": every codec made to fail in every way, at the places where a         *)
(* comparison may look away, under different files, options and in the fuzzer.                    *)
EXTENDS HrleTool, TLC, IOUtils

Mode   == IF "HRK_MODE" \in DOMAIN IOEnv THEN IOEnv.HRK_MODE ELSE "select"
Deep   == IOEnv.HRK_DEEP = "1"
Shard  == atoi(IOEnv.HRK_SHARD)
Shards == atoi(IOEnv.HRK_SHARDS)
Str(i) == ToString(i)

\* as the harness takes them: words separated by blanks
Words == <<"--extreme", "--rle-mmtf", "--mmtf", "--low-entropy", "--sh", "--low-entropy-short", "--single", "--multi", "--short", "--not-short",
           "--greedy", "--not-greedy", "--byte-aligned", "--symbol-aligned", "--packed", "--not-packed", "--sd", "--analyze">>
Values == [o \in {"--x-size", "--lut-size", "--max-simd", "--runs"} |->
  CASE o = "--x-size" -> <<"8", "16", "24", "32", "48", "64", "128", "256">>
    [] o = "--lut-size" -> <<"0", "1", "3", "7">>
    [] o = "--max-simd" -> <<"none", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "avx512f">>
    [] OTHER -> <<"2", "3">>]
Wrong == <<<<"--x-size", "9">>, <<"--x-size", "17">>, <<"--x-size", "2">>, <<"--x-size", "x">>, <<"--lut-size", "2">>, <<"--lut-size", "x">>,
           <<"--max-simd", "sse">>, <<"--max-simd", "sse4.3">>, <<"--runs", "-1">>, <<"--min-time", "-1">>, <<"--extrem">>, <<"--extremes">>, <<"-x">>, <<"8">>,
           <<"--lut-size">>, <<"--x-size">>, <<"--max-simd">>, <<"--Single">>>>
Options == [k \in DOMAIN Words |-> <<Words[k]>>]
           \o [k \in 1..8 |-> <<"--x-size", Values["--x-size"][k]>>] \o [k \in 1..4 |-> <<"--lut-size", Values["--lut-size"][k]>>]
           \o [k \in 1..9 |-> <<"--max-simd", Values["--max-simd"][k]>>] \o [k \in 1..2 |-> <<"--runs", Values["--runs"][k]>>]
All == Options \o Wrong
RECURSIVE Text(_)
Text(a) == IF a = <<>> THEN "" ELSE " " \o Head(a) \o Text(Tail(a))
Brief == <<"--test", "--runs", "1", "--min-time", "0">>
Everything == {Levels[k] : k \in 1..8}

File1 == "s3_U70_R300:41_U33_R200:4142_U9_R99:414243_U5_R160:41424344454647484142434445464701_U21_s5_P1:3:700:9_s6_P2:3:400:9_s7_P3:4:400:9_s8_P4:3:400:9_s9_P6:3:300:9_s2_P8:3:300:9"

VARIABLES args, n
vars == <<args, n>>
Job(file, fault, stop, a) == PrintT("JOB " \o file \o " " \o fault \o " " \o stop \o Text(a))

(* ---- faults ---- *)
Files == <<"s3_U70_R300:41_U33_R200:4142_U9_R99:414243_U5", "R64:00", "s4_U1", "s4_U5_R9:00", "s5_N131">>
Places == {0, 1, 31, 32, 33, 63, 64, 100, -1, -2, -8, -9, -31, -32, -33, -34, -64, -65}
DecFaults == {<<"zero", 0, 0>>, <<"none", 0, 0>>, <<"short", 0, 0>>, <<"short", 1, 0>>, <<"short", -1, 0>>, <<"size", 1, 0>>, <<"size", -1, 0>>, <<"size", 64, 0>>}
             \cup {<<"flip", p, b>> : p \in {0, -1}, b \in {1, 128}}
More == {<<"flip", p, b>> : p \in Places, b \in {1, 16, 128, 255}}
FaultText(f, x, skip) == f \o ":" \o x[1] \o ":" \o Str(x[2]) \o ":" \o Str(x[3]) \o ":" \o Str(skip)
Victims == {k \in DOMAIN ToolCodecs : ToolCodecs[k].comp # ""}
Levs == {"", "sse2", "avx"}
LevArg(v) == IF v = "" THEN <<>> ELSE <<"--max-simd", v>>
TestRuns ==
  {<<Files[i], FaultText(ToolCodecs[k].dec, x, 0), "-", Brief>> : i \in DOMAIN Files, k \in Victims, x \in DecFaults}
  \cup {<<Files[i], FaultText(ToolCodecs[k].comp, <<"zero", 0, 0>>, 0), "-", Brief \o LevArg(v)>> : i \in {1, 3}, k \in Victims, v \in Levs}
  \cup {<<Files[i], FaultText(f, x, 0), "-", Brief>> : i \in DOMAIN Files, f \in {"rle8_packed_decompress", "bitmmtf16_decode", "rle64_7symlut_byte_short_decompress"}, x \in More}
  \cup {<<Files[1], FaultText(ToolCodecs[k].dec, x, 0), "-", <<"--runs", "0", "--min-time", "0">>>> : k \in Victims, x \in {<<"zero", 0, 0>>, <<"flip", 5, 2>>, <<"flip", -1, 1>>}}
  \cup {<<Files[1], FaultText(ToolCodecs[k].dec, <<"flip", 3, 4>>, 0), "-", Brief \o a>> : k \in Victims, a \in {<<"--single">>, <<"--packed">>, <<"--x-size", "24">>, <<"--sh">>}}
  \cup {<<f, "-", "-", a>> : f \in {"missing", "empty"}, a \in {Brief, <<"--runs", "0", "--min-time", "0">>, Brief \o <<"--sh">>}}
  \cup {<<Files[i], "-", "-", Brief \o LevArg(v)>> : i \in DOMAIN Files, v \in Levs \cup {"none"}}
Ways == {"rle8_packed_decompress", "rle48_3symlut_byte_decompress", "mmtf256_decode"}
FuzzRuns ==
  {<<"missing", FaultText(ToolCodecs[k].dec, x, skip), "500", <<"--fuzz-iterative">>>> :
      k \in Victims, skip \in {0, 40, 160},
      x \in {<<"zero", 0, 0>>, <<"size", 1, 0>>, <<"size", -1, 0>>, <<"flip", 0, 1>>, <<"flip", -1, 128>>, <<"none", 0, 0>>}}
  \cup {<<"missing", FaultText(ToolCodecs[k].comp, <<"zero", 0, 0>>, 7), "500", <<"--fuzz-iterative">>>> : k \in Victims}
  \cup {<<"missing", FaultText(f, <<"flip", p, b>>, skip), "500", <<"--fuzz-iterative">>>> : f \in Ways, p \in Places, b \in {1, 128}, skip \in {70, 130, 155, 200, 250}}
  \cup {<<"missing", "-", "20000", <<"--fuzz-iterative">> \o LevArg(v)>> : v \in Levs}
  \cup {<<"missing", "-", "6000", <<"--fuzz-random">> \o LevArg(v)>> : v \in Levs}
  \cup {<<"missing", FaultText(f, x, skip), "500", <<"--fuzz-random">>>> : f \in Ways, skip \in {0, 3}, x \in {<<"zero", 0, 0>>, <<"size", 1, 0>>, <<"flip", 0, 1>>, <<"flip", -1, 128>>, <<"none", 0, 0>>}}

-----------------------------------------------------------------------------
InitSelect == /\ n = 1
              /\ \E k \in DOMAIN All : k % Shards = Shard /\ args = All[k] /\ Job(File1, "-", "-", Brief \o All[k])
NextSelect == /\ n < (IF Deep THEN 3 ELSE 2) /\ n' = n + 1
              /\ \E k \in DOMAIN All : args' = args \o All[k] /\ Job(File1, "-", "-", Brief \o args')

InitCombine == n = 0 /\ args = <<>>
Fine == {k \in DOMAIN Options : ~Parse(args \o Options[k], Everything).bad}
NextCombine == /\ n < 9 /\ Fine # {}
               /\ \E k \in {RandomElement(Fine)}, stop \in {RandomElement(1..5)} :
                    /\ args' = args \o Options[k]
                    /\ n' = (IF n >= 2 /\ stop = 1 THEN 9 ELSE n + 1)
                    /\ (n' >= 9 => Job(File1, "-", "-", Brief \o args'))

InitFaults == /\ n = 0
              /\ \E r \in TestRuns \cup FuzzRuns :
                   /\ (Len(r[2]) + Len(r[1])) % Shards = Shard
                   /\ args = r /\ Job(r[1], r[2], r[3], r[4])

Init == CASE Mode = "select" -> InitSelect [] Mode = "combine" -> InitCombine [] OTHER -> InitFaults
Next == CASE Mode = "select" -> NextSelect [] Mode = "combine" -> NextCombine [] OTHER -> UNCHANGED vars
\* a further restriction never brings a codec back (only "--low-entropy-short" replaces an earlier "--not-short")
Narrowing == Mode # "select" \/
  \A s \in {Parse(args, Everything)} : s.bad \/ \A k \in DOMAIN Options :
    \A t \in {Parse(args \o Options[k], Everything)} : t.bad \/ Options[k] = <<"--low-entropy-short">> \/ Chosen(t) \subseteq Chosen(s)
=============================================================================
