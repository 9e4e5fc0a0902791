----------------------------- MODULE HrleFormat -----------------------------
(* The stream formats of hypersonic-rle-kit: what a token is, how a reader takes one token *)
(* off the stream, how a writer puts one on, and how the symbol cache moves.  Everything    *)
(* is parameterised by a byte reader B(_), so the same rules read the bytes the real code   *)
(* wrote (HrleTrace) and the bytes of the model's own streams (HrleModel, HrleGen).         *)
EXTENDS Integers, Sequences, FiniteSets

Huge == 536870912                      \* stands for every 32 bit field of 2^29 or more

Pow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16 [] k = 5 -> 32
             [] k = 6 -> 64 [] k = 7 -> 128 [] k = 8 -> 256 [] k = 9 -> 512 [] k = 10 -> 1024 [] k = 11 -> 2048
             [] OTHER -> 2 ^ k
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

U16(B(_), p) == B(p) + 256 * B(p + 1)
U32(B(_), p) == IF B(p + 3) >= 32 THEN Huge
                ELSE B(p) + 256 * B(p + 1) + 65536 * B(p + 2) + 16777216 * B(p + 3)
\* the same field as a two's complement number
S32(B(_), p) == IF B(p + 3) \in 32..127 THEN Huge ELSE IF B(p + 3) \in 128..223 THEN -Huge
                ELSE B(p) + 256 * B(p + 1) + 65536 * B(p + 2)
                     + 16777216 * (IF B(p + 3) >= 128 THEN B(p + 3) - 256 ELSE B(p + 3))
Bytes(B(_), p, n) == [k \in 1..n |-> B(p + k - 1)]

LE16(v) == <<v % 256, (v \div 256) % 256>>
LE32(v) == <<v % 256, (v \div 256) % 256, (v \div 65536) % 256, (v \div 16777216) % 256>>
Zeros(n) == [k \in 1..n |-> 0]

-----------------------------------------------------------------------------
(* Symbol cache: the most recently used symbols, most recent first. *)
InitBytes == <<0, 127, 255, 1, 126, 128, 254>>
InitCache(c) ==
  CASE c.fam = "lut"                      -> [k \in 1..c.lut |-> [j \in 1..c.size |-> InitBytes[k]]]
    [] c.fam = "short" /\ c.lut > 1       -> [k \in 1..c.lut |-> [j \in 1..c.size |-> InitBytes[k]]]
    [] OTHER                              -> << Zeros(c.size) >>      \* last symbol / fixed symbol
Touch(cache, idx, sym) ==                 \* idx: 0-based slot that was hit, Len(cache) for a new symbol
  <<sym>> \o SubSeq(cache, 1, Min(idx, Len(cache) - 1)) \o SubSeq(cache, idx + 2, Len(cache))

RunBytes(c, cnt, off) ==                  \* run length in bytes for a count field; off: value offset of the field
  IF cnt > 33554431 THEN Huge
  ELSE IF c.sym THEN (cnt + (c.min \div c.size) - off) * c.size ELSE cnt + c.min - off

-----------------------------------------------------------------------------
(* One token: [err, end, lit, at, run, sym, cache, nx].  The `lit` bytes at `at` are copied, *)
(* then `run` bytes of `sym` follow; `end` says that this was the last token; `nx` is the    *)
(* position behind it.                                                                       *)
Tok(end, lit, at, run, sym, cache) ==
  [err |-> IF lit < 0 THEN "negative copy length" ELSE IF run < 0 THEN "negative run length" ELSE "",
   end |-> end, lit |-> lit, at |-> at, run |-> run, sym |-> sym, cache |-> cache, nx |-> at + lit]

\* a length byte, zero announces a 32 bit length
Len8(B(_), p)   == IF B(p) # 0 THEN B(p) ELSE U32(B, p + 1)
Len8N(B(_), p)  == IF B(p) # 0 THEN 1 ELSE 5
\* 7 bit length, odd announces a 31 bit length
Len7(B(_), p)   == IF B(p) % 2 = 0 THEN B(p) \div 2 ELSE (IF U32(B, p) = Huge THEN Huge ELSE U32(B, p) \div 2)
Len7N(B(_), p)  == IF B(p) % 2 = 0 THEN 1 ELSE 4

ReadPlain(B(_), c, p, cache) ==
  LET sn   == IF c.single THEN 0 ELSE c.size
      sym  == IF c.single THEN cache[1] ELSE Bytes(B, p, c.size)
      q    == p + sn
      cnt  == Len8(B, q)
      q2   == q + Len8N(B, q)
      rng  == Len8(B, q2)
      at   == q2 + Len8N(B, q2)
  IN IF rng = 0 THEN Tok(TRUE, 0, at, 0, sym, cache)
     ELSE Tok(cnt = 0, rng - 1, at, IF cnt = 0 THEN 0 ELSE RunBytes(c, cnt, 1), sym, cache)

ReadPacked(B(_), c, p, cache) ==
  LET same == ~c.single /\ B(p) >= 128
      low  == IF c.single THEN B(p) ELSE B(p) % 128
      cnt  == IF low # 0 THEN low ELSE U32(B, p + 1)
      q    == p + (IF low # 0 THEN 1 ELSE 5)
      sym  == IF c.single \/ same THEN cache[1] ELSE Bytes(B, q, c.size)
      q2   == q + (IF c.single \/ same THEN 0 ELSE c.size)
      rng  == IF c.pref7 THEN Len7(B, q2) ELSE Len8(B, q2)
      at   == q2 + (IF c.pref7 THEN Len7N(B, q2) ELSE Len8N(B, q2))
  IN IF rng = 0 THEN Tok(TRUE, 0, at, 0, sym, <<sym>>)
     ELSE Tok(cnt = 0, rng - 1, at, IF cnt = 0 THEN 0 ELSE RunBytes(c, cnt, 1), sym, <<sym>>)

\* fields of a symbol cache token: 1 announces a 16 bit value, 0 a 32 bit value
Ext(B(_), f, p)  == IF f = 0 THEN U32(B, p) ELSE IF f = 1 THEN U16(B, p) ELSE f
ExtN(f)          == IF f = 0 THEN 4 ELSE IF f = 1 THEN 2 ELSE 0

LutRangeBits(c) == IF c.lut = 7 THEN 6 ELSE 7
ReadLut(B(_), c, p, cache) ==
  LET v    == U16(B, p)
      rb   == LutRangeBits(c)
      idx  == v \div Pow2(7 + rb)
      cf   == (v \div Pow2(rb)) % 128
      rf   == v % Pow2(rb)
      sym  == IF idx = c.lut THEN Bytes(B, p + 2, c.size) ELSE cache[idx + 1]
      q    == p + 2 + (IF idx = c.lut THEN c.size ELSE 0)
      cnt  == Ext(B, cf, q)
      q2   == q + ExtN(cf)
      rng  == Ext(B, rf, q2)
      at   == q2 + ExtN(rf)
  IN IF rf = 1 /\ rng = 0 THEN Tok(TRUE, 0, at, 0, sym, cache)
     ELSE Tok(cnt = 0, rng - 2, at, IF cnt = 0 THEN 0 ELSE RunBytes(c, cnt, 2), sym, Touch(cache, idx, sym))

ShortLutBits(c)   == CASE c.lut = 0 -> 0 [] c.lut = 1 -> 1 [] c.lut = 3 -> 2 [] OTHER -> 3
ShortCountBits(c) == CASE c.lut = 0 -> 4 [] c.lut = 7 -> 2 [] OTHER -> 3
ShortPackBits(c)  == 8 - ShortLutBits(c) - ShortCountBits(c)       \* range bits of the one byte form
ShortRangeBits(c) == CASE c.lut = 7 -> 9 [] c.lut = 3 -> 10 [] OTHER -> 11
ReadShort(B(_), c, p, cache) ==
  LET b    == B(p)
      idx  == b \div Pow2(8 - ShortLutBits(c))
      cf3  == (b \div Pow2(ShortPackBits(c))) % Pow2(ShortCountBits(c))
      rf3  == b % Pow2(ShortPackBits(c))
      long == cf3 = Pow2(ShortCountBits(c)) - 1
      rb   == ShortRangeBits(c)
      cf   == B(p + 1) \div Pow2(rb - 8) + rf3 * Pow2(16 - rb)
      rf   == B(p + 2) + 256 * (B(p + 1) % Pow2(rb - 8))
      q    == p + 3
      cnt  == IF long THEN Ext(B, cf, q) ELSE cf3 + 2
      q2   == q + ExtN(cf)
      rng  == IF long THEN Ext(B, rf, q2) ELSE rf3 + 2
      q3   == IF long THEN q2 + ExtN(rf) ELSE p + 1
      new  == IF c.lut = 0 THEN ~c.single ELSE idx = c.lut
      sym  == IF new THEN Bytes(B, q3, c.size) ELSE cache[idx + 1]
      at   == q3 + (IF new THEN c.size ELSE 0)
  IN IF long /\ rf = 1 /\ rng = 0 THEN Tok(TRUE, 0, q3, 0, sym, cache)
     ELSE Tok(cnt = 0, rng - 2, at, IF cnt = 0 THEN 0 ELSE RunBytes(c, cnt, 2), sym,
              IF c.lut = 0 THEN cache ELSE Touch(cache, idx, sym))

ReadTok(B(_), c, p, cache) ==
  CASE c.fam = "plain"  -> ReadPlain(B, c, p, cache)
    [] c.fam = "packed" -> ReadPacked(B, c, p, cache)
    [] c.fam = "lut"    -> ReadLut(B, c, p, cache)
    [] c.fam = "short"  -> ReadShort(B, c, p, cache)

\* padding bytes some terminators carry behind the end
EndPad(c, tok) ==
  IF ~tok.end THEN {0}
  ELSE CASE c.fam = "short" /\ c.lut = 0 /\ ~c.single /\ tok.lit = 0 -> {0, 1}
         [] c.fam = "packed" /\ c.pref7 /\ c.size = 16 -> {0, 4}
         [] OTHER -> {0}

-----------------------------------------------------------------------------
(* Header: [err, n, m, at, cache]: original length, stream length, first token, first cache. *)
ReadHeader(B(_), c, p) ==
  LET n == U32(B, p)
      m == U32(B, p + 4)
      mode == B(p + 8)
  IN CASE c.hdr = 9 /\ ~c.single -> [err |-> IF mode = 0 THEN "" ELSE "mode", n |-> n, m |-> m, at |-> p + 9, cache |-> InitCache(c)]
       [] c.hdr = 10 -> [err |-> IF mode = 1 THEN "" ELSE "mode", n |-> n, m |-> m, at |-> p + 10, cache |-> << <<B(p + 9)>> >>]
       [] c.hdr = 9 /\ c.single -> [err |-> "", n |-> n, m |-> m, at |-> p + 9, cache |-> << <<B(p + 8)>> >>]
       [] OTHER -> [err |-> "", n |-> n, m |-> m, at |-> p + 8, cache |-> InitCache(c)]

-----------------------------------------------------------------------------
(* Writers.  A token to write: [idx (cache slot, = cache size: new symbol), sym, cnt, rng] with the raw  *)
(* field values; `wide` forces the longest form of the fields where the format has a choice.             *)
W8(v, wide)  == IF v \in 1..255 /\ ~wide THEN <<v>> ELSE <<0>> \o LE32(v)
W7(v, wide)  == IF v \in 0..127 /\ ~wide THEN <<2 * v>> ELSE LE32(2 * v + 1)
FieldOf(v, limit, wide) == IF v >= 2 /\ v <= limit /\ ~wide THEN v ELSE IF v <= 65535 /\ ~wide THEN 1 ELSE 0
WExt(v, f)   == IF f = 0 THEN LE32(v) ELSE IF f = 1 THEN LE16(v) ELSE <<>>

WritePlain(c, t, wide) == (IF c.single THEN <<>> ELSE t.sym) \o W8(t.cnt, wide) \o W8(t.rng, wide)
WritePacked(c, t, cache, wide) ==
  LET same == ~c.single /\ t.idx = 0
      top  == IF same THEN 128 ELSE 0
      max  == IF c.single THEN 255 ELSE 127
  IN (IF t.cnt \in 1..max /\ ~wide THEN <<top + t.cnt>> ELSE <<top>> \o LE32(t.cnt))
     \o (IF same \/ c.single THEN <<>> ELSE t.sym)
     \o (IF c.pref7 THEN W7(t.rng, wide) ELSE W8(t.rng, wide))
WriteLut(c, t, wide) ==
  LET rb == LutRangeBits(c)
      cf == FieldOf(t.cnt, 127, wide)
      rf == FieldOf(t.rng, Pow2(rb) - 1, wide)
  IN LE16(t.idx * Pow2(7 + rb) + cf * Pow2(rb) + rf) \o (IF t.idx = c.lut THEN t.sym ELSE <<>>)
     \o WExt(t.cnt, cf) \o WExt(t.rng, rf)
WriteShort(c, t, wide) ==
  LET rb   == ShortRangeBits(c)
      top  == t.idx * Pow2(8 - ShortLutBits(c))
      inv  == Pow2(ShortCountBits(c)) - 1
      one  == t.cnt - 2 \in 0..(inv - 1) /\ t.rng - 2 \in 0..(Pow2(ShortPackBits(c)) - 1) /\ wide = 0
      cf   == FieldOf(t.cnt, 511, wide = 2)
      rf   == FieldOf(t.rng, Pow2(rb) - 1, wide = 2)
      new  == IF c.lut = 0 THEN ~c.single ELSE t.idx = c.lut
  IN (IF one THEN <<top + (t.cnt - 2) * Pow2(ShortPackBits(c)) + (t.rng - 2)>>
      ELSE <<top + inv * Pow2(ShortPackBits(c)) + cf \div Pow2(16 - rb),
             (cf % Pow2(16 - rb)) * Pow2(rb - 8) + rf \div 256, rf % 256>> \o WExt(t.cnt, cf) \o WExt(t.rng, rf))
     \o (IF new THEN t.sym ELSE <<>>)
\* wide: 0 the shortest form, 1 / 2 longer forms
WriteTok(c, t, cache, wide) ==
  CASE c.fam = "plain"  -> WritePlain(c, t, wide > 0)
    [] c.fam = "packed" -> WritePacked(c, t, cache, wide > 0)
    [] c.fam = "lut"    -> WriteLut(c, t, wide > 0)
    [] c.fam = "short"  -> WriteShort(c, t, wide)

\* range field offset: 1 for plain and packed streams, 2 for symbol caches; likewise for counts
FieldOff(c) == IF c.fam \in {"plain", "packed"} THEN 1 ELSE 2
CountOf(c, run) == IF c.sym THEN run \div c.size - c.min \div c.size + FieldOff(c) ELSE run - c.min + FieldOff(c)

\* last token: everything up to the end was a run (lit = 0), or `lit` literals remain
WriteEnd(c, lit) ==
  CASE c.fam = "plain" ->
         (IF c.single THEN <<>> ELSE Zeros(c.size)) \o <<0>> \o LE32(0) \o <<0>> \o LE32(IF lit = 0 THEN 0 ELSE lit + 1)
    [] c.fam = "packed" ->
         (IF c.single THEN <<0>> ELSE <<128>>) \o LE32(0)
         \o (IF c.pref7 /\ (lit > 0 \/ c.size < 16) THEN LE32(IF lit = 0 THEN 1 ELSE 2 * (lit + 1) + 1)
             ELSE <<0>> \o LE32(IF lit = 0 THEN 0 ELSE lit + 1))
    [] c.fam = "lut" ->
         LET rb == LutRangeBits(c)
         IN IF lit = 0 THEN LE16(Pow2(rb) + 1) \o LE16(0) \o LE16(0)
            ELSE LE16(Pow2(rb)) \o LE16(0) \o LE32(lit + 2)
    [] c.fam = "short" ->
         LET inv == (Pow2(ShortCountBits(c)) - 1) * Pow2(ShortPackBits(c))
             one == Pow2(ShortRangeBits(c) - 8)
         IN IF lit = 0 THEN <<inv, one, 1>> \o LE16(0) \o LE16(0) \o (IF c.lut = 0 /\ ~c.single THEN <<0>> ELSE <<>>)
            ELSE <<inv, one, 0>> \o LE16(0) \o LE32(lit + 2) \o (IF c.lut = 0 /\ ~c.single THEN Zeros(c.size) ELSE <<>>)

WriteHeader(c, n, m, sym) ==
  LE32(n) \o LE32(m) \o (CASE c.hdr = 9 /\ ~c.single -> <<0>> [] c.hdr = 10 -> <<1>> \o sym
                           [] c.hdr = 9 /\ c.single -> sym [] OTHER -> <<>>)
=============================================================================
