------------------------------ MODULE HrleGrid ------------------------------
(* Every place where a stream format changes form, enumerated (not sampled): the initial     *)
(* states of this specification are all combinations of codec, cache slot, count field value,  *)
(* copy-length field value and kind of ending around the formats' limits.  For each, the       *)
(* stream with that token (part "d") or the input that calls for it (part "e") is printed as   *)
(* a job for the harness.  Parts "t" and "g" enumerate where runs start and end relative to     *)
(* the input's start and end, and inputs built from equal literal/run pairs.                    *)
EXTENDS HrleFormat, HrleCodecs, HrleDraw, IOUtils

Part  == IOEnv.HRK_PART
Has(p) == \E i \in 1..Len(Part) : SubSeq(Part, i, i) = p
Only  == IF "HRK_GEN" \in DOMAIN IOEnv THEN IOEnv.HRK_GEN ELSE "all"
Deep  == "HRK_DEEP" \in DOMAIN IOEnv /\ IOEnv.HRK_DEEP = "1"
Shard == IF "HRK_SHARD" \in DOMAIN IOEnv THEN atoi(IOEnv.HRK_SHARD) ELSE 0
Shards == IF "HRK_SHARDS" \in DOMAIN IOEnv THEN atoi(IOEnv.HRK_SHARDS) ELSE 1
Token == {"plain", "packed", "lut", "short"}
Names == {k \in Offered : \/ Only = "all" \/ Codecs[k].fam = Only \/ (Only = "blocks" /\ Codecs[k].fam \in {"le", "lem"})
                          \/ (Only = "transforms" /\ Codecs[k].fam \in {"mtf", "delta"})}
TokNames == {k \in Names : Codecs[k].fam \in Token}
\* names are split between shards by the size of their symbol and their own length
Mine(k) == (Codecs[k].size * 7 + Codecs[k].lut * 3 + Codecs[k].min + (IF Codecs[k].sym THEN 5 ELSE 0)) % Shards = Shard

Near(S, d) == UNION {(v - d)..(v + d) : v \in S}
Span == IF Deep THEN 3 ELSE 1
\* largest values of the short forms of the count field and of the copy-length field
CountLimits(c) ==
  CASE c.fam = "plain"  -> {255}
    [] c.fam = "packed" -> IF c.single THEN {255} ELSE {127}
    [] c.fam = "lut"    -> {127, 65535}
    [] c.fam = "short"  -> {Pow2(ShortCountBits(c)), Pow2(ShortCountBits(c)) + 1, 511, 65535}
RangeLimits(c) ==
  CASE c.fam = "plain"  -> {255}
    [] c.fam = "packed" -> IF c.pref7 THEN {127} ELSE {255}
    [] c.fam = "lut"    -> {Pow2(LutRangeBits(c)) - 1, 65535}
    [] c.fam = "short"  -> {Pow2(ShortPackBits(c)) + 1, Pow2(ShortRangeBits(c)) - 1, 65535}
Off(c) == FieldOff(c)
\* the shortest run the format can hold
MinRun(c) == IF c.sym THEN Max(c.min \div c.size, 1) * c.size ELSE Max(c.min, 1)
MinCount(c) == CountOf(c, MinRun(c))
CountValues(c) == {v \in Near(CountLimits(c), Span) \cup {MinCount(c), MinCount(c) + 1, MinCount(c) + 5} : v >= MinCount(c)}
RangeValues(c) == {v \in Near(RangeLimits(c), Span) \cup {Off(c), Off(c) + 1} : v >= Off(c)}
\* one of each class, for combinations
CountClasses(c) == {v \in {w + e : w \in CountLimits(c), e \in {0, 1}} \cup {MinCount(c)} : v >= MinCount(c)}
RangeClasses(c) == {v \in {w + e : w \in RangeLimits(c), e \in {0, 1}} \cup {Off(c)} : v >= Off(c)}
Slots(c) == IF c.single \/ c.fam = "plain" \/ (c.fam = "short" /\ c.lut = 0) THEN {0}
            ELSE IF c.fam = "packed" THEN {0, 1} ELSE 0..c.lut
\* a token: values one at a time in slots first and new, classes in combination in every slot
Tokens(c) ==
  LET big(v) == v > 60000
      two == {p \in CountClasses(c) \X RangeClasses(c) : Deep \/ ~(big(p[1]) /\ c.size > 4)}
  IN {<<v, Off(c) + 2, s>> : v \in CountValues(c), s \in {0}}
     \cup {<<v + d, r, 0>> : v \in {w \in CountLimits(c) : w < 600}, d \in IF c.sym THEN {} ELSE 2..(c.size + 1), r \in {Off(c) + 2} \cup {w + 1 : w \in {x \in RangeLimits(c) : x < 600}}}
     \cup {<<MinCount(c) + 1, v, s>> : v \in RangeValues(c), s \in {0}}
     \cup {<<p[1], p[2], s>> : p \in {q \in two : ~big(q[1]) /\ ~big(q[2])}, s \in Slots(c)}
     \cup {<<p[1], p[2], s>> : p \in two, s \in IF Deep THEN Slots(c) ELSE {CHOOSE x \in Slots(c) : \A y \in Slots(c) : y <= x}}

\* symbols of the prefix: distinct, none of them an initial one
Sym(c, k) == [j \in 1..c.size |-> ((17 + 31 * k + (IF j = c.size THEN 7 * k ELSE 3 * j)) % 256)]
RunOf(c, cnt) == RunBytes(c, cnt, Off(c))
GLit(k, seed) == IF k = 0 THEN "" ELSE " s" \o Str(seed) \o " U" \o Str(k)
Run(s, k) == " R" \o Str(k) \o ":" \o Hex(s)

(* ---- part "e": the input.  The prefix runs over symbols 7,6,..,1 so that symbol k is in slot k-1. ---- *)
PrefixN(c) == IF c.fam \in {"lut", "short"} /\ c.lut > 0 THEN c.lut ELSE IF c.fam = "packed" /\ ~c.single THEN 1 ELSE 0
RECURSIVE PrefixE(_, _)
PrefixE(c, k) == IF k = 0 THEN "" ELSE GLit(3, k) \o Run(Sym(c, k), Max(MinRun(c), 6 * c.size)) \o PrefixE(c, k - 1)
TheSym(c, t) == IF c.single THEN Sym(c, 1) ELSE IF PrefixN(c) = 0 THEN Sym(c, 9) ELSE IF t[3] < PrefixN(c) THEN Sym(c, t[3] + 1) ELSE Sym(c, 9)
JobE(k, t, e) ==
  LET c == Codecs[k] IN
    "JOB E " \o k \o " -" \o PrefixE(c, PrefixN(c)) \o GLit(t[2] - Off(c), 77) \o Run(TheSym(c, t), RunOf(c, t[1])) \o GLit(e, 78)

(* ---- part "d": the stream ---- *)
RECURSIVE PrefixD(_, _, _)
PrefixD(c, k, cache) ==                   \* [bytes, cache]
  IF k = 0 THEN [b |-> <<>>, cache |-> cache]
  ELSE LET idx == IF PrefixN(c) = 0 THEN 0 ELSE Len(cache)
           bs  == WriteTok(c, [idx |-> idx, sym |-> Sym(c, k), cnt |-> MinCount(c), rng |-> Off(c)], cache, 0)
           r   == PrefixD(c, k - 1, IF c.fam = "packed" THEN <<Sym(c, k)>> ELSE Touch(cache, idx, Sym(c, k)))
       IN [b |-> bs \o r.b, cache |-> r.cache]
JobD(k, t, e, wide) ==
  LET c    == Codecs[k]
      pre  == PrefixD(c, PrefixN(c), InitCache(c))
      cold == PrefixN(c) = 0
      sym  == IF c.single THEN Sym(c, 1) ELSE IF cold THEN Sym(c, 9) ELSE IF t[3] < Len(pre.cache) THEN pre.cache[t[3] + 1] ELSE Sym(c, 9)
      bs   == WriteTok(c, [idx |-> t[3], sym |-> sym, cnt |-> t[1], rng |-> t[2]], pre.cache, wide)
      lit  == t[2] - Off(c)
      en   == WriteEnd(c, e)
      n    == PrefixN(c) * MinRun(c) + lit + RunOf(c, t[1]) + e
      m    == c.hdr + Len(pre.b) + Len(bs) + lit + Len(en) + e
  IN "JOB D " \o k \o " " \o Str(n) \o H(WriteHeader(c, n, m, Sym(c, 1)) \o pre.b \o bs) \o GLit(lit, 77) \o H(en) \o GLit(e, 78)

(* ---- part "t": runs that start s bytes into the input and end e bytes before its end ---- *)
Starts == IF Deep THEN 0..70 ELSE {0, 1, 2, 3, 5, 7, 8, 13, 15, 16, 17, 23, 31, 32, 33, 48, 63, 64, 65}
Tails  == IF Deep THEN 0..140 ELSE 0..35 \cup {47, 48, 49, 62, 63, 64, 65, 66, 127, 128, 129}
Size(c) == IF c.fam \in Token THEN c.size ELSE 1
TailRuns(c) == {2 * Size(c), 3 * Size(c) + 1, 4 * Size(c) + (IF c.sym THEN 1 ELSE 2), 40 + Size(c), 7 * Size(c) + 70}
JobT(k, s, r, e, b) ==
  LET c == Codecs[k] IN "JOB E " \o k \o " -" \o GLit(s, 5 + s) \o Run(IF Size(c) = 1 THEN <<b>> ELSE Sym(c, b), r) \o GLit(e, 6 + e)

(* ---- part "g": l literals, run of r bytes, over and over, each run of another symbol ---- *)
GLits(c) == IF Deep THEN 0..140 \cup {254, 255, 256} ELSE {0, 1, 2, 3, 5, 6, 7, 8, 14, 30, 31, 61, 62, 63, 64, 66, 125, 126, 127, 128}
GRuns(c) == {Size(c) * v + d : v \in 1..4, d \in {0, 1}} \cup {c.min, c.min + 1, c.min + 2, c.min + 5, c.min + 9, 9, 10, 11, 12, 14, 15}
JobG(k, l, r, b) ==
  LET c == Codecs[k] IN "JOB E " \o k \o " - s" \o Str(l * 7 + r) \o " G" \o Str(Size(c)) \o ":" \o Str(l) \o ":" \o Str(r) \o ":" \o Str((b \div (l + r)) + 1)

(* ---- part "x": the patterns of part "g" that cost most, in inputs long enough for the cost to add up ---- *)
XLits(c) == IF c.fam \in Token THEN {v - Off(c) + d : v \in {w \in RangeLimits(c) : w < 60000}, d \in 0..2} ELSE {0, 1, 2, 7, 30, 128}
XRuns(c) == IF c.fam \in Token THEN {2 * c.size, 2 * c.size + 1, c.min, c.min + 1} \ {0} ELSE {1, 2, 3, 5}
(* ---- part "n": sizes over the whole range, as <<high 16 bits, low 16 bits>> ---- *)
SizeHi == {0, 1, 2, 255, 256, 257, 1023, 4095, 4096, 8191, 12288, 16382, 16383}
SizeLo == {1, 2, 31, 32, 63, 64, 65, 127, 128, 129, 4095, 32767, 32768, 65279, 65280, 65471, 65472, 65534, 65535}
(* ---- part "z": large inputs ---- *)
SymText(c) == IF Size(c) = 1 THEN "11" ELSE Hex(Sym(c, 1))
ZSizes == {"16777293", "268435523"} \cup (IF Deep THEN {"1073741824", "1073741823", "536870913"} ELSE {})
ZLevels(n) == IF n = "16777293" THEN (IF Deep THEN "0123456789" ELSE "0178") ELSE IF n = "268435523" THEN "18" ELSE "0178"
(* ---- part "y": streams of one token with a count or a copy length beyond 24 bits ---- *)
YTokens(c) == {<<16777216 + 9, Off(c)>>, <<MinCount(c) + 1, 16777216 + 33>>}
               \cup (IF Deep THEN {<<16777216 + 9, 16777216 + 33>>, <<33554432 + 3, Off(c) + 1>>, <<MinCount(c), 268435456 + 77>>} ELSE {})
JobY(k, t) ==
  LET c   == Codecs[k]
      new == CHOOSE x \in Slots(c) : \A y \in Slots(c) : y <= x
      sym == IF c.single THEN Sym(c, 1) ELSE Sym(c, 9)
      bs  == WriteTok(c, [idx |-> new, sym |-> sym, cnt |-> t[1], rng |-> t[2]], InitCache(c), 0)
      lit == t[2] - Off(c)
      en  == WriteEnd(c, 0)
      run == RunOf(c, t[1])
  IN "JOB Y " \o k \o " " \o Str(lit + run) \o " 012345678 " \o Hex(WriteHeader(c, lit + run, c.hdr + Len(bs) + lit + Len(en), Sym(c, 1)) \o bs)
      \o " " \o Str(lit) \o " " \o Hex(en) \o " " \o Hex(sym) \o " " \o Str(run)


(* ---- part "m": blocks of bytes given by their move-to-front ranks: stretches of mixed ranks below w, stretches of one rank ---- *)
RankNames == {k \in Names : Codecs[k].fam \in {"mmtf", "mtf"}}
Lanes(c) == IF c.fam = "mmtf" THEN 16 ELSE c.size
Ranks(c, p) == " K" \o Str(Lanes(c)) \o ":" \o Str(p[2]) \o ":" \o
  Hex(IF p[1] < 0 THEN [j \in 1..(3 * Lanes(c)) |-> ((7 * (j - 1) + 5 * (j \div 3)) % (-p[1]))] ELSE [j \in 1..Lanes(c) |-> p[1]])
Mixed(bs) == {<<-w, b>> : w \in {2, 3, 4, 5, 8, 9, 16, 17, 255}, b \in bs}
Equal(bs) == {<<r, b>> : r \in {0, 1, 2, 3, 4, 7, 15, 16, 200, 255}, b \in bs}
Blocks == IF Deep THEN 1..70 ELSE {1, 2, 3, 4, 5, 7, 8, 30, 31, 32, 33, 63, 64, 65}
Repeats == IF Deep THEN 1..140 ELSE 1..12 \cup {126, 127, 128, 129, 255, 256, 257}
Few == {1, 2, 3}
MSeqs == {<<p>> : p \in Mixed(Blocks) \cup Equal(Repeats)}
         \cup {<<p, q>> : p \in Mixed(Blocks), q \in {<<2, 3>>, <<0, 1>>}}
         \cup {<<p, q, p>> : p \in Mixed({1, 31, 32}), q \in Equal({1, 2})}
         \cup {<<p, q>> : p \in Equal(Repeats), q \in Mixed({2})}
         \cup {<<p, q, p>> : p, q \in Equal(Few)}
         \cup {<<<<-255, 3>>, p, <<-7, 2>>>> : p \in Equal(Repeats)}
         \cup {<<p, <<1, 1>>, q>> : p, q \in Mixed({1, 3, 32})}
RECURSIVE RankText(_, _)
RankText(c, q) == IF q = <<>> THEN "" ELSE Ranks(c, Head(q)) \o RankText(c, Tail(q))
JobM(k, q, e) == "JOB E " \o k \o " -" \o RankText(Codecs[k], q) \o GLit(e, 5)
(* ---- part "o": two runs, of the same symbol or of two, with literals before, between and behind ---- *)
ORuns(c) == IF c.fam = "sh" THEN {9, 10, 11, 13, 14, 15, 16, 40, 268, 269, 270, 271}
            ELSE IF c.fam \in Token THEN {MinRun(c), MinRun(c) + c.size, c.min + c.size + 1, RunOf(c, CHOOSE v \in CountLimits(c) : \A w \in CountLimits(c) : v <= w) + 1}
            ELSE {2, 3, 9, 40, 257}
OLits(c) == IF c.fam = "sh" THEN {0, 1, 2, 6, 7, 8, 20, 161, 270} ELSE {0, 1, 2, 7, 40}
JobO(k, r, l, q, same, e) ==
  LET c == Codecs[k]
      s == [i \in 1..2 |-> IF Size(c) = 1 THEN <<30 + i>> ELSE Sym(c, i)]
  IN "JOB E " \o k \o " -" \o GLit(5, 3) \o Run(s[1], r) \o GLit(l, 4) \o Run(s[IF same THEN 1 ELSE 2], q) \o GLit(e, 5)

(* ---- part "k": streams of rle8_mmtf128: a copy of cp blocks in one of four packings, a run of rn blocks of one rank, ---- *)
(* ----           two more blocks, and the bytes behind the last block                                               ---- *)
PackedSize(mode, cp) == CASE mode = 0 -> 16 * cp [] mode = 3 -> 16 * (cp \div 4) + 4 * (cp % 4)
                          [] mode = 2 -> 36 * (cp \div 6) + 6 * (cp % 6) [] OTHER -> 16 * (cp \div 2) + 8 * (cp % 2)
KCopies == {<<mode, cp, w>> : mode \in 0..3, cp \in IF Deep THEN 0..80 ELSE 0..14 \cup {29, 30, 31, 32, 33, 62, 63, 64, 65}, w \in BOOLEAN}
KRuns   == {<<r, b, w>> : r \in {0, 1, 2, 3, 4, 5, 15, 16, 100, 255}, b \in IF Deep THEN 1..140 ELSE 1..13 \cup {126, 127, 128, 129, 300}, w \in BOOLEAN}
JobK(k, cp, rn, e) ==
  LET h1 == IF cp[3] \/ cp[2] > 31 THEN LE32(8 * cp[2] + 2 * cp[1] + 1) ELSE <<8 * cp[2] + 2 * cp[1]>>
      g1 == (IF rn[3] \/ rn[2] > 127 THEN LE32(2 * rn[2] + 1) ELSE <<2 * rn[2]>>) \o <<rn[1]>>
      sz == PackedSize(cp[1], cp[2])
      n  == 16 * (cp[2] + rn[2] + 2) + e
      m  == 8 + Len(h1) + sz + Len(g1) + 1 + 32 + 1 + e
  IN "JOB D " \o k \o " " \o Str(n) \o H(LE32(n) \o LE32(m) \o h1) \o (IF sz = 0 THEN "" ELSE " s" \o Str(cp[2] + 5) \o " N" \o Str(sz))
       \o H(g1 \o <<16>>) \o " s9 A6:32" \o H(<<0>>) \o GLit(e, 7)
(* ---- part "s": streams of rle8_sh: every two commands, with values around the limits, and what they leave behind ---- *)
ShLit(v) == "s" \o Str(v + 3) \o " U" \o Str(v)
\* a command: [bits, bytes, literals behind them, bytes described]; inside a block: one bit string per symbol
ShBlock(v, q) ==
  LET k(i) == IF q = 4 THEN (i * 7 + i \div 5) % 4 ELSE q
      bits[i \in 0..(v + 161)] == IF i = 0 THEN <<1, 1, 1, 1, 1, 1, 1>>
                                  ELSE bits[i - 1] \o (CASE k(i) = 0 -> <<0>> [] k(i) = 1 -> <<1, 1, 0>> [] k(i) = 2 -> <<1, 1, 1>> [] OTHER -> <<1, 0>>)
      byts[i \in 0..(v + 161)] == IF i = 0 THEN <<v>> ELSE IF k(i) = 3 THEN Append(byts[i - 1], (i * i) % 11) ELSE byts[i - 1]
  IN [x |-> bits[v + 161], b |-> byts[v + 161], l |-> 0, n |-> v + 161]
ShCmds ==
  {[x |-> <<0>>, b |-> <<>>, l |-> 0, n |-> 1], [x |-> <<1, 1, 0>>, b |-> <<>>, l |-> 0, n |-> 1], [x |-> <<1, 1, 1, 0>>, b |-> <<>>, l |-> 0, n |-> 1]}
  \cup {[x |-> <<1, 0>>, b |-> <<v>>, l |-> 0, n |-> 1] : v \in {5, 127, 128}}
  \cup {[x |-> <<1, 1, 1, 1, 0>>, b |-> <<v>>, l |-> 0, n |-> v + 14] : v \in {0, 1, 2, 63, 127, 128, 254, 255}}
  \cup {[x |-> <<1, 1, 1, 1, 1, 0, 0>>, b |-> <<v>>, l |-> v + 7, n |-> v + 7] : v \in {0, 1, 2, 9, 25, 57, 127, 128, 254, 255}}
  \cup {[x |-> <<1, 1, 1, 1, 1, 1, 0>>, b |-> LE32(v), l |-> v + 7, n |-> v + 7] : v \in {1, 2, 254, 255, 256, 257, 65535, 65536}}
  \cup {[x |-> <<1, 1, 1, 1, 1, 0, 1>>, b |-> LE32(v) \o <<s>>, l |-> 0, n |-> v + 14] : v \in {0, 1, 50, 255, 256, 257, 65535, 65536, 65537}, s \in {0, 127, 200}}
  \cup {ShBlock(v, q) : v \in {0, 1, 94}, q \in 0..4} \cup {ShBlock(255, 4)}
ShLeft == [x |-> <<1, 1, 0, 1, 1, 1, 0, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 1, 1, 0>>, b |-> <<77>>, l |-> 0, n |-> 7]      \* all kept symbols
JobS(k, p, q) ==
  LET lit(y) == IF y.l = 0 THEN "" ELSE " " \o ShLit(y.l)
      bits == p.x \o q.x \o ShLeft.x \o <<1, 1, 1, 1, 1, 1, 0>>
      cnt  == (Len(bits) + 7) \div 8
      bit(i) == IF i <= Len(bits) THEN bits[i] ELSE 0
      cmd  == [j \in 1..cnt |-> LET i == 8 * (cnt - j) IN bit(i+1) + 2*bit(i+2) + 4*bit(i+3) + 8*bit(i+4) + 16*bit(i+5) + 32*bit(i+6) + 64*bit(i+7) + 128*bit(i+8)]
      n    == p.n + q.n + ShLeft.n
      m    == 8 + Len(p.b) + p.l + Len(q.b) + q.l + Len(ShLeft.b) + 4 + cnt
  IN "JOB D " \o k \o " " \o Str(n) \o H(LE32(n) \o LE32(m) \o p.b) \o lit(p) \o H(q.b) \o lit(q) \o H(ShLeft.b \o LE32(0) \o cmd)

VARIABLE job
Init ==
  \/ /\ Has("k")
     /\ \E k \in {x \in Names : Mine(x) /\ Codecs[x].fam = "mmtf"} :
        \E p \in ({<<cp, <<1, 2, FALSE>>>> : cp \in KCopies} \cup {<<<<2, 3, FALSE>>, rn>> : rn \in KRuns}
                  \cup {<<<<mode, cp, FALSE>>, <<r, b, FALSE>>>> : mode \in {1, 3}, cp \in {0, 5}, r \in {0, 2, 200}, b \in 1..4}), e \in {0, 1, 15} :
          (Deep \/ e # 1) /\ job = JobK(k, p[1], p[2], e)
  \/ /\ Has("s")
     /\ \E k \in {x \in Names : Mine(x) /\ Codecs[x].fam = "sh"} : \E p, q \in ShCmds :
          (Deep \/ p.n + q.n < 60000 \/ p.n < 30) /\ job = JobS(k, p, q)
  \/ /\ Has("m")
     /\ \E k \in {x \in RankNames : Mine(x)} : \E q \in MSeqs, e \in {0, 1, 15} :
          (Deep \/ e = Len(q) % 2 \/ (Len(q) = 1 /\ e = 15)) /\ job = JobM(k, q, e)
  \/ /\ Has("o")
     /\ \E k \in {x \in Names : Mine(x)} : \E r, q \in ORuns(Codecs[k]), l \in OLits(Codecs[k]), same \in BOOLEAN, e \in {0, 1, 3} :
          (Deep \/ Codecs[k].fam = "sh" \/ (r * 7 + q * 3 + l + e) % 4 = 0) /\ job = JobO(k, r, l, q, same, e)
  \/ /\ Has("x")
     /\ \E k \in {x \in Names : Mine(x) /\ ~(Codecs[x].fam \in {"mtf", "delta"})} : \E lt \in XLits(Codecs[k]), r \in XRuns(Codecs[k]) :
          lt >= 0 /\ job = JobG(k, lt, r, IF Deep THEN 500000 ELSE 90000)
  \/ /\ Has("n")
     /\ \E k \in {x \in Names : Mine(x)} : \E s \in (SizeHi \X SizeLo) \cup {<<h, 0>> : h \in (SizeHi \ {0}) \cup {16384}} :
          job = "JOB N " \o k \o " " \o Str(s[1]) \o " " \o Str(s[2])
  \/ /\ Has("z")
     /\ \E k \in {x \in Names : Mine(x)} : \E n \in ZSizes, b \in {"R" \o SymText(Codecs[k]) \o " 3 5", "N 0 0"} :
          (n = "268435523" => b # "N 0 0") /\ job = "JOB Z " \o k \o " " \o n \o " " \o ZLevels(n) \o " " \o b
  \/ /\ Has("y")
     /\ \E k \in {x \in TokNames : Mine(x)} : \E t \in YTokens(Codecs[k]) : job = JobY(k, t)
  \/ /\ Has("e")
     /\ \E k \in {x \in TokNames : Mine(x)} : \E t \in Tokens(Codecs[k]), e \in IF Deep THEN {0, 1, 3, 9, 40} ELSE {0, 1, 9} : (Deep \/ e # 1 \/ t[3] = 0) /\ job = JobE(k, t, e)
  \/ /\ Has("d")
     /\ \E k \in {x \in TokNames : Mine(x)} :
        \E t \in Tokens(Codecs[k]), e \in {0, 9}, wide \in {0, 1, 2} :
           /\ wide < 2 \/ Codecs[k].fam = "short"
           /\ job = JobD(k, t, e, wide)
  \/ /\ Has("t")
     /\ \E k \in {x \in Names : Mine(x)} : \E s \in Starts, e \in Tails, r \in TailRuns(Codecs[k]), b \in IF Deep THEN {0, 1, 127} ELSE {1} :
          (Deep \/ (s * 7 + e * 3 + r) % 5 = 0) /\ job = JobT(k, s, r, e, b)
  \/ /\ Has("g")
     /\ \E k \in {x \in Names : Mine(x)} : \E l \in GLits(Codecs[k]), r \in GRuns(Codecs[k]), b \in IF Deep THEN {300, 3000} ELSE {1500} :
          r > 0 /\ job = JobG(k, l, r, b)
Next == UNCHANGED job
Show == PrintT(job)
=============================================================================
