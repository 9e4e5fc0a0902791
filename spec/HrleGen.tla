------------------------------- MODULE HrleGen -------------------------------
(* A writer of streams: every behaviour of this state machine is one well-formed stream of *)
(* one codec, chosen freely by the format's rules (not by what the library's encoders      *)
(* would do).  Run by TLC in simulation mode; each finished stream is printed as a job for  *)
(* the harness: "D <id> <codec> <original length> <plan of the stream's bytes>".            *)
EXTENDS HrleFormat, HrleCodecs, HrleDraw, IOUtils

CONSTANT MaxLen                         \* stop adding tokens once this much output is described

Fams   == {"plain", "packed", "lut", "short"}
Only   == IF "HRK_GEN" \in DOMAIN IOEnv THEN IOEnv.HRK_GEN ELSE "all"
Names  == {k \in DOMAIN Codecs : CASE Only = "all" -> (k \in Offered /\ Codecs[k].fam \in Fams \cup {"sh", "mmtf", "le"}) \/ k = "rle8m_any"
                                   [] Only = "blocks" -> k \notin Tables /\ (Codecs[k].fam = "le" \/ k = "rle8m_any")
                                   [] OTHER -> k \in Offered /\ Codecs[k].fam = Only}

VARIABLES name, left, cache, body, n, m, x, done
vars == <<name, left, cache, body, n, m, x, done>>
c == Codecs[name]

\* field values around the places where the encodings change form
Around == <<1, 2, 3, 4, 7, 8, 9, 14, 15, 16, 17, 18, 30, 31, 32, 33, 34, 62, 63, 64, 65, 66, 126, 127, 128, 129, 130,
            254, 255, 256, 257, 258, 510, 511, 512, 513, 514, 1022, 1023, 1024, 1025, 1026, 2046, 2047, 2048, 2049, 2050>>
Large  == <<65533, 65534, 65535, 65536, 65537, 65538>>
\* a length of at least lo (uses places i..i+2)
Value(t, i, lo) ==
  LET r == R(t, i, 1, 100)
      v == IF r <= 45 THEN R(t, i + 1, lo, lo + 20) ELSE IF r <= 90 THEN Pick(t, i + 1, Around) + R(t, i + 2, -1, 1)
           ELSE IF r <= 97 THEN R(t, i + 1, lo, 3000) ELSE IF n < MaxLen \div 4 THEN Pick(t, i + 1, Large) ELSE R(t, i + 1, lo, 300)
  IN Max(lo, v)

\* a new symbol (uses places i..i+4)
SymBytes(t, i) ==
  LET r == R(t, i, 1, 6)
      a == R(t, i + 1, 0, 255)
      d == R(t, i + 2, 1, 255)
  IN CASE r = 1 -> [k \in 1..c.size |-> a]                             \* one byte repeated
       [] r = 2 -> [k \in 1..c.size |-> IF k = c.size THEN d ELSE a]   \* differs only in the last byte
       [] r = 3 -> [k \in 1..c.size |-> IF k % 2 = 0 THEN d ELSE a]
       [] r = 4 -> [k \in 1..c.size |-> InitBytes[((a + k * d) % 7) + 1]]
       [] OTHER -> [k \in 1..c.size |-> (a + k * d + k * k * 7) % 256]

\* the shortest run a stream may contain
MinRun == IF c.sym THEN Max(c.min \div c.size, 1) * c.size ELSE Max(c.min,1)
All == [k \in 1..256 |-> k - 1]
Slots == IF c.fam \in {"lut", "short"} /\ c.lut > 0 THEN c.lut ELSE 1

-----------------------------------------------------------------------------
Init == /\ name \in Names
        /\ left = -1 /\ cache = <<>> /\ body = "" /\ n = 0 /\ m = 0 /\ x = <<>> /\ done = FALSE

\* x: the fixed symbol of single-symbol streams, or the state of the other families
Begin ==
  /\ left = -1
  /\ \E t \in Tape(n) :
     /\ left' = LET r == R(t, 1, 1, 10) IN IF r <= 3 THEN R(t, 2, 0, 2) ELSE IF r <= 8 THEN R(t, 2, 2, 12) ELSE R(t, 2, 12, 40)
     /\ CASE c.fam \in Fams -> LET s == <<R(t, 3, 0, 255)>> IN
               /\ cache' = IF c.single THEN <<s>> ELSE InitCache(c)
               /\ x' = s /\ m' = c.hdr /\ body' = ""
          [] c.fam = "sh" -> /\ cache' = [lr |-> 127, s2 |-> 128, s3 |-> 126, lo |-> 128, rem |-> 0, mix |-> 0] /\ x' = <<>> /\ m' = 8 /\ body' = ""
          [] c.fam = "mmtf" -> cache' = <<>> /\ x' = <<>> /\ m' = 8 /\ body' = ""
          [] c.fam \in {"le", "lem"} ->
               \* table: which symbols are run symbols, and a list of the first symbols that stand for counts
               \E q \in {Pick(t, 3, <<0, 1, 1, 1, 2, 5, 60, 255, 256>>)}, st \in {R(t, 7, 0, 255)},
                  mul \in {Pick(t, 8, <<1, 3, 5, 77, 255>>)}, num \in {Pick(t, 6, <<1, 2, 5, 32, 33, 200, 254, 255>>)},
                  step \in {Pick(t, 5, <<1, 7, 131>>)}, base \in {R(t, 4, 0, 255)},
                  sec \in {Pick(t, 10, <<1, 2, 2, 3, 4, 5, 7, 11, 16, 33>>)}, share \in {Pick(t, 11, <<1, 2, 3, 17, 31, 32, 33, 64, 100, 255, 256, 257, 300, 512, 700>>)} :
               \E rle \in {{(base + k * step) % 256 : k \in 1..q}}, lst \in {[k \in 1..num |-> (st + k * mul) % 256]} :
               \E inl \in {{lst[k] : k \in 1..num}} :
               LET map == [k \in 1..32 |-> LET b(i) == IF (8 * (k - 1) + i) \in rle THEN Pow2(i) ELSE 0
                                            IN b(0) + b(1) + b(2) + b(3) + b(4) + b(5) + b(6) + b(7)]
               IN /\ cache' = [rs  |-> SelectSeq(All, LAMBDA v : v \in rle), ps |-> SelectSeq(All, LAMBDA v : v \notin rle),
                               lst |-> lst, us |-> SelectSeq(All, LAMBDA v : v \notin inl),
                               k |-> sec, q |-> share, last |-> IF sec = 1 THEN share ELSE share + R(t, 12, 0, sec - 1), fill |-> 0, ends |-> <<>>]
                  /\ body' = H(map \o <<IF num = 255 /\ Chance(t, 9, 50) THEN 0 ELSE num>> \o lst)
                  /\ m' = (IF c.fam = "lem" THEN 12 + 4 * (sec - 1) ELSE 8) + 33 + num
                  /\ x' = <<0>>
  /\ UNCHANGED <<name, n, done>>

PutRun ==
  /\ left > 0 /\ n < MaxLen /\ c.fam \in Fams
  /\ \E t \in Tape(n) :
     LET none == c.single \/ c.fam = "plain" \/ (c.fam = "short" /\ c.lut = 0)     \* no symbol cache
         idx  == IF none THEN 0 ELSE R(t, 1, 0, Slots)
         new  == ~c.single /\ (none \/ idx = Slots)
         sym  == IF new THEN SymBytes(t, 2) ELSE cache[idx + 1]
         u    == Value(t, 7, 1)
         run  == IF c.sym THEN Max(MinRun, (IF u > 5000 THEN u \div c.size ELSE u) * c.size) ELSE Max(MinRun, u + c.min)
         lt   == Max(0, Value(t, 10, 0) - R(t, 13, 0, 1))
         wide == Pick(t, 14, <<0, 0, 0, 0, 0, 0, 1, 2>>)
         tk   == [idx |-> idx, sym |-> sym, cnt |-> CountOf(c, run), rng |-> lt + FieldOff(c)]
         bs   == WriteTok(c, tk, cache, wide)
     IN /\ body' = body \o H(bs) \o Lit(t, 15, lt)
        /\ m' = m + Len(bs) + lt
        /\ n' = n + lt + run
        /\ cache' = IF c.fam = "packed" THEN <<sym>>
                    ELSE IF c.fam = "lut" \/ (c.fam = "short" /\ c.lut > 0) THEN Touch(cache, idx, sym) ELSE cache
  /\ left' = left - 1
  /\ UNCHANGED <<name, x, done>>

Job(hdr, text, nn) == PrintT("JOB " \o name \o " " \o ToString(nn) \o H(hdr) \o text)

PutEnd ==
  /\ ~done /\ (left = 0 \/ (left > 0 /\ n >= MaxLen)) /\ c.fam \in Fams
  /\ \E t \in Tape(n) :
     LET lit == IF n > 0 /\ Chance(t, 1, 40) THEN 0 ELSE Value(t, 2, 1)
         bs  == WriteEnd(c, lit)
     IN Job(WriteHeader(c, n + lit, m + Len(bs) + lit, x), body \o H(bs) \o Lit(t, 5, lit), n + lit)
  /\ done' = TRUE /\ left' = 0
  /\ UNCHANGED <<name, cache, x, body, n, m>>

(* ---- rle8_sh: x collects the command bits ---- *)
ShSeen(s, v) == [s EXCEPT !.s3 = IF v = s.lo THEN s.s2 ELSE s.s3, !.s2 = IF v = s.lo THEN v ELSE s.s2, !.lo = v]
PutSh ==
  /\ left > 0 /\ n < MaxLen /\ c.fam = "sh" /\ cache.rem = 0
  /\ \E t \in Tape(n) :
     LET k == R(t, 1, 1, 20)
         st == cache
         put(bits, bytes, text, tl, nn, s) ==
            /\ x' = x \o bits /\ body' = body \o H(bytes) \o text /\ m' = m + Len(bytes) + tl /\ n' = n + nn /\ cache' = s
         b == IF Chance(t, 2, 30) THEN st.lo ELSE R(t, 3, 0, 255)
         v8 == Pick(t, 4, <<0, 1, 2, 3, 17, 100, 254, 255>>)
         v32 == Value(t, 5, 1)
         s == R(t, 8, 0, 255)
     IN CASE k <= 4 -> put(<<0>>, <<>>, "", 0, 1, st)
          [] k \in 5..8 -> put(<<1, 0>>, <<b>>, "", 0, 1, ShSeen(st, b))
          [] k \in 9..10 -> put(<<1, 1, 0>>, <<>>, "", 0, 1, [st EXCEPT !.lo = st.s2])
          [] k \in 11..12 -> put(<<1, 1, 1, 0>>, <<>>, "", 0, 1, [st EXCEPT !.lo = st.s3])
          [] k \in 13..14 -> put(<<1, 1, 1, 1, 0>>, <<v8>>, "", 0, v8 + 14, st)
          [] k \in 15..16 -> put(<<1, 1, 1, 1, 1, 0, 0>>, <<v8>>, Lit(t, 9, v8 + 7), v8 + 7, v8 + 7, st)
          [] k = 17  -> put(<<1, 1, 1, 1, 1, 1, 0>>, LE32(v32), Lit(t, 9, v32 + 7), v32 + 7, v32 + 7, st)
          [] OTHER   -> put(<<1, 1, 1, 1, 1, 0, 1>>, LE32(v32) \o <<s>>, "", 0, v32 + 14, [st EXCEPT !.lr = s])
  /\ left' = left - 1
  /\ UNCHANGED <<name, done>>
\* a block of individually coded symbols: 161 + v of them, each its own step
PutShBlock ==
  /\ left > 0 /\ n < MaxLen /\ c.fam = "sh" /\ cache.rem = 0 /\ left % 4 = 1
  /\ \E t \in Tape(n) :
     LET v == Pick(t, 1, <<0, 1, 2, 5, 93>>)
     IN /\ x' = x \o <<1, 1, 1, 1, 1, 1, 1>> /\ body' = body \o H(<<v>>) /\ m' = m + 1
        /\ cache' = [cache EXCEPT !.rem = v + 161, !.mix = R(t, 2, 0, 4)]
  /\ left' = left - 1
  /\ UNCHANGED <<name, n, done>>
InShBlock ==
  /\ c.fam = "sh" /\ left >= 0 /\ cache.rem > 0
  /\ \E q \in {RandomElement(0..5)}, z \in {RandomElement(0..255)} :
     LET st == [cache EXCEPT !.rem = @ - 1]
         b  == IF q = 4 THEN st.lo ELSE z
         kind == IF cache.mix = q \/ cache.mix = 4 THEN q ELSE cache.mix
         put(bits, bytes, s) == x' = x \o bits /\ body' = body \o H(bytes) /\ m' = m + Len(bytes) /\ cache' = s
     IN CASE kind = 0 -> put(<<0>>, <<>>, st)
          [] kind = 1 -> put(<<1, 1, 0>>, <<>>, [st EXCEPT !.lo = st.s2])
          [] kind = 2 -> put(<<1, 1, 1>>, <<>>, [st EXCEPT !.lo = st.s3])
          [] OTHER    -> put(<<1, 0>>, <<b>>, ShSeen(st, b))
  /\ n' = n + 1
  /\ UNCHANGED <<name, left, done>>
EndSh ==
  /\ ~done /\ (left = 0 \/ (left > 0 /\ n >= MaxLen)) /\ c.fam = "sh" /\ cache.rem = 0
  /\ \E t \in Tape(n) :
     LET first == n = 0
         l0   == IF first THEN R(t, 1, 0, 40) ELSE 0
         pre  == IF first THEN <<1, 1, 1, 1, 1, 0, 0>> ELSE <<>>
         bits == x \o pre \o <<1, 1, 1, 1, 1, 1, 0>>
         cnt  == (Len(bits) + 7) \div 8
         bit(i) == IF i <= Len(bits) THEN bits[i] ELSE 0
         cmd  == [k \in 1..cnt |-> LET i == 8 * (cnt - k) IN bit(i+1) + 2*bit(i+2) + 4*bit(i+3) + 8*bit(i+4) + 16*bit(i+5) + 32*bit(i+6) + 64*bit(i+7) + 128*bit(i+8)]
         text == (IF first THEN H(<<l0>>) \o Lit(t, 2, l0 + 7) ELSE "") \o H(LE32(0) \o cmd)
         mm   == m + (IF first THEN 1 + l0 + 7 ELSE 0) + 4 + cnt
         nn   == n + (IF first THEN l0 + 7 ELSE 0)
     IN Job(LE32(nn) \o LE32(mm), body \o text, nn)
  /\ done' = TRUE /\ left' = 0 /\ UNCHANGED <<name, cache, body, n, m, x>>

(* ---- rle8_mmtf128: copies of blocks of ranks in four packings, runs of one rank ---- *)
PutMmtf ==
  /\ left > 0 /\ n < MaxLen /\ c.fam = "mmtf"
  /\ \E t \in Tape(n) :
     LET mode == R(t, 1, 0, 3)
         cp   == Pick(t, 2, <<0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 24, 30, 31, 32, 33, 100>>)
         sz   == CASE mode = 0 -> 16 * cp [] mode = 3 -> 16 * (cp \div 4) + 4 * (cp % 4)
                   [] mode = 2 -> 36 * (cp \div 6) + 6 * (cp % 6) [] OTHER -> 16 * (cp \div 2) + 8 * (cp % 2)
         h    == IF cp <= 31 /\ Chance(t, 3, 80) THEN <<8 * cp + 2 * mode>> ELSE LE32(8 * cp + 2 * mode + 1)
         rn   == Pick(t, 4, <<1, 2, 3, 5, 60, 126, 127, 128, 129, 300>>)
         g    == IF rn <= 127 /\ Chance(t, 5, 80) THEN <<2 * rn>> ELSE LE32(2 * rn + 1)
         idx  == IF Chance(t, 6, 60) THEN 0 ELSE R(t, 7, 0, 255)
         txt  == IF sz = 0 THEN "" ELSE " s" \o ToString(At(t, 8)) \o (IF Chance(t, 9, 70) THEN " N" \o ToString(sz) ELSE " A4:" \o ToString(sz))
     IN /\ body' = body \o H(h) \o txt \o H(g \o <<idx>>)
        /\ m' = m + Len(h) + sz + Len(g) + 1
        /\ n' = n + 16 * (cp + rn)
  /\ left' = left - 1 /\ UNCHANGED <<name, cache, x, done>>
EndMmtf ==
  /\ ~done /\ (left = 0 \/ (left > 0 /\ n >= MaxLen)) /\ c.fam = "mmtf"
  /\ \E t \in Tape(n) :
     LET tail == IF n = 0 THEN R(t, 1, 1, 15) ELSE R(t, 1, 0, 15)
         mm   == m + 2 + tail
     IN Job(LE32(n + tail) \o LE32(mm), body \o H(<<0, 0>>) \o (IF tail = 0 THEN "" ELSE " s" \o ToString(At(t, 2)) \o " N" \o ToString(tail)), n + tail)
  /\ done' = TRUE /\ left' = 0 /\ UNCHANGED <<name, cache, body, n, m, x>>

(* ---- low entropy: any table, any counts ---- *)
LeByteFor(k) ==                         \* a byte that stands for count k
  IF k < Len(cache.lst) THEN cache.lst[k + 1] ELSE cache.us[k - Len(cache.lst) + 1]
Counts == <<0, 1, 2, 14, 15, 16, 17, 29, 30, 31, 32, 33, 47, 48, 63, 64, 100, 252, 253, 254>>
PutLe ==
  /\ left > 0 /\ n < MaxLen /\ c.fam = "le"
  /\ \E t \in Tape(n) :
     LET isRun == cache.rs # <<>> /\ (Chance(t, 1, 60) \/ cache.ps = <<>>)
         v == Pick(t, 2, cache.rs)
         k == Min(Pick(t, 3, Counts), c.min - 1)
         q == [i \in 1..R(t, 4, 1, 18) |-> Pick(t, i + 5, cache.ps)]
         bulk == R(t, 5, 1, 400)
         bv == Pick(t, 6, cache.ps)
     IN IF isRun THEN body' = body \o H(<<v, LeByteFor(k)>>) /\ m' = m + 2 /\ n' = n + 1 + k
        ELSE IF Chance(t, 25, 50) THEN body' = body \o H(q) /\ m' = m + Len(q) /\ n' = n + Len(q)
        ELSE body' = body \o " R" \o ToString(bulk) \o ":" \o Hex(<<bv>>) /\ m' = m + bulk /\ n' = n + bulk
  /\ left' = left - 1 /\ UNCHANGED <<name, cache, x, done>>
EndLe ==
  /\ ~done /\ (left = 0 \/ (left > 0 /\ n >= MaxLen)) /\ c.fam = "le"
  /\ \E t \in Tape(n) :
     LET v == Pick(t, 1, cache.rs)
         one == IF cache.rs = <<>> THEN <<R(t, 2, 0, 255)>> ELSE <<v, LeByteFor(0)>>
         need == n = 0
     IN Job(LE32(m + (IF need THEN Len(one) ELSE 0)) \o LE32(n + (IF need THEN 1 ELSE 0)), body \o (IF need THEN H(one) ELSE ""), n + (IF need THEN 1 ELSE 0))
  /\ done' = TRUE /\ left' = 0 /\ UNCHANGED <<name, cache, body, n, m, x>>

(* ---- sections: each describes its share of the original on its own, the last one also the remainder ---- *)
Share == IF Len(cache.ends) = cache.k - 1 THEN cache.last ELSE cache.q
PutLem ==
  /\ left >= 0 /\ ~done /\ c.fam = "lem" /\ cache.fill < Share
  /\ \E t \in Tape(n) :
     \E room \in {Share - cache.fill} :
     LET isRun == cache.rs # <<>> /\ (Chance(t, 1, 60) \/ cache.ps = <<>>)
         v == Pick(t, 2, cache.rs)
         k == Min(Min(IF Chance(t, 7, 20) THEN room - 1 ELSE Pick(t, 3, Counts), c.min - 1), room - 1)
         q == [i \in 1..Min(room, R(t, 4, 1, 18)) |-> Pick(t, i + 8, cache.ps)]
         bulk == Min(room, R(t, 5, 1, 400))
         bv == Pick(t, 6, cache.ps)
         take(h, bytes, k2) == /\ body' = body \o h /\ m' = m + bytes /\ n' = n + k2 /\ cache' = [cache EXCEPT !.fill = @ + k2]
     IN IF isRun THEN take(H(<<v, LeByteFor(k)>>), 2, 1 + k)
        ELSE IF Chance(t, 35, 50) THEN take(H(q), Len(q), Len(q))
        ELSE take(" R" \o ToString(bulk) \o ":" \o Hex(<<bv>>), bulk, bulk)
  /\ UNCHANGED <<name, left, x, done>>
NextLem ==
  /\ left >= 0 /\ ~done /\ c.fam = "lem" /\ cache.fill = Share /\ Len(cache.ends) < cache.k - 1
  /\ cache' = [cache EXCEPT !.fill = 0, !.ends = Append(@, m)]
  /\ UNCHANGED <<name, left, body, n, m, x, done>>
RECURSIVE LE32s(_)
LE32s(s) == IF s = <<>> THEN <<>> ELSE LE32(Head(s)) \o LE32s(Tail(s))
EndLem ==
  /\ left >= 0 /\ ~done /\ c.fam = "lem" /\ cache.fill = Share /\ Len(cache.ends) = cache.k - 1
  /\ Job(LE32(m) \o LE32(n) \o LE32(cache.k) \o LE32s(cache.ends), body, n)
  /\ done' = TRUE /\ left' = 0 /\ UNCHANGED <<name, cache, body, n, m, x>>

Next == PutLem \/ NextLem \/ EndLem \/ Begin \/ PutRun \/ PutEnd \/ PutSh \/ PutShBlock \/ InShBlock \/ EndSh \/ PutMmtf \/ EndMmtf \/ PutLe \/ EndLe
=============================================================================
