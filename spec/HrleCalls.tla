------------------------------ MODULE HrleCalls ------------------------------
(* Calls with unusable arguments, enumerated: every initial state is one call.  All public   *)
(* functions, with each buffer missing, with sizes at, below and far beyond what is needed,   *)
(* and with headers that promise more than there is or ask for a mode that does not exist.    *)
(* Sizes are text because they reach 2^32-1; HrleRefuse says which of the calls have to be    *)
(* refused.                                                                                   *)
EXTENDS HrleFormat, HrleCodecs, HrleDraw, IOUtils

Deep   == "HRK_DEEP" \in DOMAIN IOEnv /\ IOEnv.HRK_DEEP = "1"
Shard  == IF "HRK_SHARD" \in DOMAIN IOEnv THEN atoi(IOEnv.HRK_SHARD) ELSE 0
Shards == IF "HRK_SHARDS" \in DOMAIN IOEnv THEN atoi(IOEnv.HRK_SHARDS) ELSE 1
\* the compositions the harness makes itself of the building blocks are not calls of the library
Names  == Offered \ {"rle8_low_entropy_info", "rle8_low_entropy_short_info"}
Mine(k) == (Codecs[k].size * 7 + Codecs[k].lut * 3 + Codecs[k].min + (IF Codecs[k].sym THEN 5 ELSE 0)) % Shards = Shard
Trans(c) == c.fam \in {"mtf", "delta"}

----------------------------------------------------------------------------
\* compression
\* (numbers of bytes)
SmallN == IF Deep THEN {0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 500, 4000} ELSE {0, 1, 2, 16, 64, 500}
SmallO(c) == IF Trans(c) THEN {"0", "1", "n-1", "n-2"} ELSE {"0", "1", "8", "9", "10", "n", "n-1", "b-1", "b-2", "b-8", "b-65"}
HugeN  == {"1073741825", "1073741888", "2147483647", "2147483648", "4211081215", "4294967103", "4294967294", "4294967295"}
HugeO  == IF Deep THEN {"4294967295", "2147483648", "0", "100"} ELSE {"4294967295", "100"}
\* less room than needed, and enough room but a buffer missing
JobsC(k) ==
  LET c == Codecs[k] IN
     {"C " \o k \o " 1 1 " \o Str(n) \o " " \o o : n \in SmallN \ {0}, o \in SmallO(c)}
  \cup {"C " \o k \o " " \o io \o " " \o Str(n) \o " " \o o : io \in {"0 1", "1 0", "0 0"}, n \in {0, 1, 16, 64, 500}, o \in {"0", "b", "b-1"}}
  \cup {"C " \o k \o " 1 1 0 " \o o : o \in {"0", "b", "1000"}}
  \cup (IF Trans(c) THEN {} ELSE {"C " \o k \o " 1 1 " \o n \o " " \o o : n \in HugeN, o \in HugeO})

----------------------------------------------------------------------------
\* decompression: streams of these inputs ...
Plans(c) == {" s3 U40 R90:41 U20", " R5:00"} \cup (IF Deep THEN {" s9 U700 R3000:4142 U7", " s1 U1"} ELSE {})
\* ... with these header fields (text: hex of the four bytes; "" leaves the field alone)
Fields == {"00000000", "01000000", "ffff0000", "00000040", "ffffff7f", "00000080", "fdffffff", "ffffffff"}
\* position of the original length and of the stream length
PosN(c) == IF c.fam \in {"le", "lem"} THEN "4" ELSE "0"
PosM(c) == IF c.fam \in {"le", "lem"} THEN "0" ELSE "4"
Modes == {"02", "03", "10", "7f", "80", "81", "fe", "ff"}
DJ(k, io, i, o, p, plan) == "D " \o k \o " " \o io \o " " \o i \o " " \o o \o " " \o p \o plan
Short == IF ~Deep THEN {"0", "1", "3", "4", "7", "8", "9", "11", "12", "20", "40", "41"} ELSE {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "20", "32", "40", "41", "48"}
JobsD(k) ==
  LET c == Codecs[k] IN
  IF Trans(c)
  THEN {DJ(k, io, i, "n", "-", p) : io \in {"0 1", "1 0", "0 0"}, i \in {"0", "m"}, p \in Plans(c)}
       \cup {DJ(k, "1 1", "m", o, "-", p) : o \in {"0", "1", "n-1", "n-2", "n-16"}, p \in Plans(c)}
       \cup {DJ(k, "1 1", "0", o, "-", p) : o \in {"0", "n"}, p \in Plans(c)}
  ELSE UNION {
         {DJ(k, io, i, o, "-", p) : io \in {"0 1", "1 0", "0 0"}, i \in {"0", "1", "m"}, o \in {"0", "n"}}
    \cup {DJ(k, "1 1", i, o, "-", p) : i \in Short \cup {"m-1", "m-2", "m-9"}, o \in IF Deep THEN {"n", "n-1", "0"} ELSE {"n"}}
    \cup {DJ(k, "1 1", "m", o, "-", p) : o \in {"0", "1", "n-1", "n-2", "n-64"}}
    \cup {DJ(k, "1 1", "m", "n", PosN(c) \o ":" \o v, p) : v \in Fields \ {"00000000", "01000000"}}
    \cup {DJ(k, "1 1", i, o, PosM(c) \o ":" \o v, p) : v \in Fields \ {"00000000", "01000000"}, i \in {"m", "m-1"}, o \in {"n"}}
    \cup {DJ(k, "1 1", "m", "n", PosN(c) \o ":" \o v \o "," \o PosM(c) \o ":" \o u, p) : v \in IF Deep THEN Fields ELSE {"00000000", "ffffffff"}, u \in Fields \ {"00000000", "01000000"}}
    \cup (IF c.hdr \in {9, 10} /\ c.fam \in {"plain", "packed"} THEN {DJ(k, "1 1", "m", "n", "8:" \o v, p) : v \in Modes} ELSE {})
    \cup (IF c.fam = "lem" THEN {DJ(k, "1 1", "m", "n", "8:" \o v, p) : v \in Fields \ {"01000000"}}
                            \cup {DJ(k, "1 1", "m", "n", Str(12 + 4 * s) \o ":" \o v, p) : v \in Fields \ {"00000000", "01000000"}, s \in 0..(Min(c.lut, 4) - 2)} ELSE {})
    : p \in Plans(c)}

----------------------------------------------------------------------------
\* building blocks: present arguments, size of the input, size of the output
Masks(n) == CASE n = 1 -> {"0", "1"} [] n = 2 -> {"00", "01", "10", "11"}
              [] n = 3 -> {"011", "101", "110", "000", "111"} [] OTHER -> {"0111", "1011", "1101", "1110", "0000"}
BPlans == {" s3 U40 R90:41 U20", " R5:00", " s4 A3:400", " s5 N300"}
BJob(f, p, n, o, plan) == "B " \o f \o " " \o p \o " " \o n \o " " \o o \o plan
JobsB ==
  UNION {
       {BJob(f, p, n, "0", pl) : f \in {"get_compress_info", "get_compress_info_only_max_frequency"}, p \in Masks(2), n \in {"0", "n"}}
  \cup {BJob("write_compress_info", p, "n", o, pl) : p \in Masks(2), o \in {"0", "1", "32", "33", "34", "n-1", "n-2", "n"}}
  \cup {BJob(f, p, n, o, pl) : f \in {"compress_with_info", "short_compress_with_info"}, p \in Masks(3), n \in {"0", "n"}, o \in {"0", "1", "2", "n-1", "n-2", "n-5", "n"}}
  \cup {BJob("read_decompress_info", p, n, "0", pl) : p \in Masks(2), n \in {"0", "1", "31", "32", "33", "n-1", "n-2", "n"}}
  \cup {BJob(f, p, "n", "n", pl) : f \in {"decompress_with_info", "short_decompress_with_info"}, p \in Masks(4)}
  \cup {BJob("decompressed_size", p, Str(n), "0", pl) : p \in Masks(1), n \in 0..9}
  : pl \in BPlans}
\* sections
JobsS == {"S " \o s \o " " \o Str(n) \o " " \o o : s \in {"0", "1", "2", "7", "64", "65", "500", "501", "65536", "1073741824", "2147483648", "4294967295"}, n \in {0, 1, 64, 500}, o \in {"b", "b-1", "0", "1000000"}}

VARIABLE job
Init == \/ \E k \in {x \in Names : Mine(x)} : \E j \in JobsC(k) \cup JobsD(k) : job = "JOB " \o j
        \/ Shard = 0 /\ \E j \in JobsB \cup JobsS : job = "JOB " \o j
Next == UNCHANGED job
Show == PrintT(job)
=============================================================================
