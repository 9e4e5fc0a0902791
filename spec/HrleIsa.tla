------------------------------- MODULE HrleIsa -------------------------------
(* Instruction-set extensions: what a machine offers, what the library finds out at its     *)
(* first use, how a caller may restrict it, and which variant of a function a call then      *)
(* takes.  Model checked (HrleIsa.cfg): whatever the machine, only usable instructions are    *)
(* executed.  The same definition of `Usable` drives the emulated machines on which the real   *)
(* code is run (HrleIsaGen) and the judgement of what it did there (HrleIsaTrace).             *)
EXTENDS Integers, Sequences, FiniteSets

\* each extension comes with the ones before it
Chain == <<"sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "avx512f">>
ChainUpTo(k) == {Chain[i] : i \in 1..k}
\* what no supported machine is required to have and the library never asks for
Extra == {"avx512vl", "avx512bw", "avx512dq", "avx512cd", "avx512other", "bmi1", "bmi2", "lzcnt", "popcnt", "fma", "f16c",
          "movbe", "aes", "pclmul", "sha", "adx", "other"}
Classes == {"base", "cpuid", "xgetbv"} \cup ChainUpTo(7) \cup Extra

(* A machine: highest cpuid leaf, reported extensions, OSXSAVE, bits set in XCR0 (1: XMM, 2: YMM, 5: opmask, 6 and 7: ZMM). *)
Machines == [leaf : {1, 4, 7}, cpu : {ChainUpTo(k) : k \in 0..7}, osx : {0, 1}, xcr : SUBSET {1, 2, 5, 6, 7}]

OsAvx(m)    == m.osx = 1 /\ {1, 2} \subseteq m.xcr
OsAvx512(m) == OsAvx(m) /\ {5, 6, 7} \subseteq m.xcr
\* extensions that are present, can be known to be present, and whose registers the OS has enabled
Usable(m) ==
  {"base", "cpuid"} \cup (IF m.osx = 1 THEN {"xgetbv"} ELSE {})
  \cup (m.cpu \cap {"sse3", "ssse3", "sse4.1", "sse4.2"})
  \cup (IF OsAvx(m) THEN m.cpu \cap {"avx"} ELSE {})
  \cup (IF OsAvx(m) /\ m.leaf >= 7 THEN m.cpu \cap {"avx2"} ELSE {})
  \cup (IF OsAvx512(m) /\ m.leaf >= 7 THEN m.cpu \cap {"avx512f"} ELSE {})

\* levels a caller may restrict the library to, and the classes they allow
Cuts == {"-", "avx512f", "avx2", "avx", "sse4.2", "sse4.1", "ssse3", "sse3", "sse2", "none"}
CutClasses(cut) ==
  {"base", "cpuid", "xgetbv"} \cup
  (CASE cut \in {"-", "avx512f"} -> ChainUpTo(7) [] cut = "avx2" -> ChainUpTo(6) [] cut = "avx" -> ChainUpTo(5)
     [] cut = "sse4.2" -> ChainUpTo(4) [] cut = "sse4.1" -> ChainUpTo(3) [] cut = "ssse3" -> ChainUpTo(2)
     [] cut = "sse3" -> ChainUpTo(1) [] OTHER -> {})
Allowed(m, cut) == Usable(m) \cap CutClasses(cut)

-----------------------------------------------------------------------------
(* The library's side. *)
Flags == {"sse2"} \cup ChainUpTo(7)
\* cpuid beyond the highest leaf answers with the data of the highest leaf: nothing may be concluded from it
Leaf7(m, f) == m.leaf >= 7 /\ f \in m.cpu
XgetbvRuns(m) == m.osx = 1 /\ "avx" \in m.cpu
Detect(m) ==
  {"sse2"} \cup (m.cpu \cap {"sse3", "ssse3", "sse4.1", "sse4.2"})
  \cup (IF XgetbvRuns(m) /\ OsAvx(m) THEN {"avx"} ELSE {})
  \cup (IF XgetbvRuns(m) /\ OsAvx(m) /\ Leaf7(m, "avx2") THEN {"avx2"} ELSE {})
  \cup (IF XgetbvRuns(m) /\ OsAvx512(m) /\ Leaf7(m, "avx512f") THEN {"avx512f"} ELSE {})
CutFlags(cut) == IF cut = "none" THEN {} ELSE {"sse2"} \cup CutClasses(cut)

\* variants in order of preference; the last one needs nothing
Ladders == [
  compress    |-> <<"avx2", "sse2">>,
  compress24  |-> <<"avx2", "ssse3", "sse2">>,
  decompress  |-> <<"avx512f", "avx2", "avx", "sse4.1", "ssse3", "sse2">>,
  lowEntropy  |-> <<"avx2", "sse2">>,
  lowEntropyM |-> <<"avx", "sse2">>,
  transform   |-> <<"avx2", "sse4.1", "sse2">>]
Needs(v) == CASE v = "avx512f" -> ChainUpTo(7) [] v = "avx2" -> ChainUpTo(6) [] v = "avx" -> ChainUpTo(5)
              [] v = "sse4.1" -> ChainUpTo(3) [] v = "ssse3" -> ChainUpTo(2) [] OTHER -> {}
Choose(kind, flags) ==
  LET q == Ladders[kind]
      ok == {i \in 1..Len(q) : q[i] \in flags}
  IN IF ok = {} THEN "none" ELSE q[CHOOSE i \in ok : \A j \in ok : i <= j]
=============================================================================
