------------------------------ MODULE HrleTool ------------------------------
(* The command line tool: how it reads its arguments (a state that every argument changes or  *)
(* refuses), which codecs that selects, at which instruction-set level they run, and what the  *)
(* verdict of a run has to be given what the codecs did.                                       *)
EXTENDS Integers, Sequences, FiniteSets, HrleToolCodecs

Labels == {ToolCodecs[k].label : k \in DOMAIN ToolCodecs}
Levels == <<"sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "avx512f">>
UpTo(v) == IF v = "none" THEN {} ELSE {Levels[i] : i \in 1..(CHOOSE k \in 1..8 : Levels[k] = v)}

\* nothing asked for yet
Start(machine) == [bad |-> FALSE, kinds |-> {}, single |-> "", short |-> "", greedy |-> "", align |-> "", packed |-> "", lut |-> -1, bits |-> 0,
                   level |-> machine, cut |-> FALSE, test |-> FALSE, quiet |-> FALSE, runs |-> 8, fuzz |-> FALSE]
Refuse(s) == [s EXCEPT !.bad = TRUE]

\* arguments that stand alone
Kinds   == [k \in {"--extreme", "--rle-mmtf", "--mmtf", "--low-entropy", "--sh"} |->
              CASE k = "--extreme" -> "extreme" [] k = "--rle-mmtf" -> "rlemmtf" [] k = "--mmtf" -> "mmtf" [] k = "--low-entropy" -> "le" [] OTHER -> "sh"]
Singles == {"--single", "--multi"}   Shorts == {"--short", "--not-short"}   Greedys == {"--greedy", "--not-greedy"}
Aligns  == {"--byte-aligned", "--symbol-aligned"}   Packeds == {"--packed", "--not-packed"}
Alone(s, a) ==
  CASE a \in DOMAIN Kinds -> [s EXCEPT !.kinds = @ \cup {Kinds[a]}]
    [] a = "--low-entropy-short" -> [s EXCEPT !.kinds = @ \cup {"le"}, !.short = "--short"]
    [] a \in Singles -> IF s.single # "" THEN Refuse(s) ELSE [s EXCEPT !.single = a]
    [] a \in Shorts  -> IF s.short # "" THEN Refuse(s) ELSE [s EXCEPT !.short = a]
    [] a \in Greedys -> IF s.greedy # "" THEN Refuse(s) ELSE [s EXCEPT !.greedy = a]
    [] a \in Aligns  -> IF s.align # "" THEN Refuse(s) ELSE [s EXCEPT !.align = a]
    [] a \in Packeds -> IF s.packed # "" THEN Refuse(s) ELSE [s EXCEPT !.packed = a]
    [] a = "--test"  -> [s EXCEPT !.test = TRUE, !.quiet = TRUE]
    [] a \in {"--sd", "--analyze"} -> s
    [] a \in {"--fuzz-iterative", "--fuzz-random"} -> [s EXCEPT !.fuzz = TRUE]
    [] OTHER -> Refuse(s)
\* arguments followed by a value
Bits == [v \in {"8", "16", "24", "32", "48", "64", "128", "256"} |->
           CASE v = "8" -> 8 [] v = "16" -> 16 [] v = "24" -> 24 [] v = "32" -> 32 [] v = "48" -> 48 [] v = "64" -> 64 [] v = "128" -> 128 [] OTHER -> 256]
Luts == [v \in {"0", "1", "3", "7"} |-> CASE v = "0" -> 0 [] v = "1" -> 1 [] v = "3" -> 3 [] OTHER -> 7]
Counts == [v \in {"0", "1", "2", "3", "5"} |-> CASE v = "0" -> 0 [] v = "1" -> 1 [] v = "2" -> 2 [] v = "3" -> 3 [] OTHER -> 5]
Valued == {"--x-size", "--lut-size", "--max-simd", "--runs", "--min-time"}
With(s, a, v) ==
  CASE a = "--x-size"   -> IF s.bits # 0 \/ v \notin DOMAIN Bits THEN Refuse(s) ELSE [s EXCEPT !.bits = Bits[v]]
    [] a = "--lut-size" -> IF s.lut # -1 \/ v \notin DOMAIN Luts THEN Refuse(s) ELSE [s EXCEPT !.lut = Luts[v]]
    \* a level the machine (or an earlier restriction) does not have cannot be asked for
    [] a = "--max-simd" -> IF v # "none" /\ v \notin s.level THEN Refuse(s) ELSE [s EXCEPT !.level = @ \cap UpTo(v), !.cut = TRUE]
    [] a = "--runs"     -> IF v \notin DOMAIN Counts THEN Refuse(s)
                           ELSE [s EXCEPT !.runs = IF v = "0" THEN 1 ELSE Counts[v], !.quiet = @ \/ v = "0"]
    [] OTHER            -> IF v \notin DOMAIN Counts THEN Refuse(s) ELSE s
RECURSIVE Go(_, _, _)
Go(s, args, i) ==
  IF s.bad \/ i > Len(args) THEN s
  ELSE IF args[i] \notin Valued THEN Go(Alone(s, args[i]), args, i + 1)
  ELSE IF i = Len(args) THEN Refuse(s)                       \* the value is missing
  ELSE Go(With(s, args[i], args[i + 1]), args, i + 2)
\* combinations no codec can satisfy
Impossible(s) ==
  \/ "extreme" \in s.kinds /\ s.single = "--single" /\ s.bits \notin {0, 8}
  \/ "extreme" \in s.kinds /\ s.bits = 256
  \/ s.kinds \cap {"mmtf", "rlemmtf"} # {} /\ s.bits \notin {0, 8, 16, 128, 256}
Parse(args, machine) == LET s == Go(Start(machine), args, 1) IN IF s.bad \/ Impossible(s) THEN Refuse(s) ELSE s

-----------------------------------------------------------------------------
(* The codecs a state selects: those that satisfy every restriction. *)
Fits(s, c) ==
  /\ \A k \in s.kinds : c.kind = k
  /\ s.align = "--byte-aligned" => c.align = "byte"
  /\ s.align = "--symbol-aligned" => c.align = "sym"
  /\ s.single = "--single" => c.single = "single"
  /\ s.single = "--multi" => c.single \in {"multi", "?"}
  /\ s.packed # "" => (c.packed = (s.packed = "--packed"))
  /\ s.short # "" => (c.short = (s.short = "--short"))
  /\ s.greedy # "" => (c.greedy = (s.greedy = "--greedy"))
  /\ s.lut # -1 => c.lut = s.lut
  /\ s.bits # 0 => c.bits = s.bits
Chosen(s) == {k \in DOMAIN ToolCodecs : Fits(s, ToolCodecs[k])}
\* whether they are run is left open: neither single nor multi symbol is a sensible question for them
Open(s) == IF s.single = "--multi" THEN {k \in Chosen(s) : ToolCodecs[k].single = "?"} ELSE {}
Funcs(K) == UNION {{ToolCodecs[k].comp, ToolCodecs[k].dec} : k \in K} \ {""}

(* Verdicts.  A transform the level does not provide may fail without that being held against it. *)
Excused(s, f) == (f = "mmtf256_encode" /\ "avx" \notin s.level) \/ (f \in {"mmtf128_encode", "mmtf256_encode"} /\ "sse2" \notin s.level)
=============================================================================
