----------------------------- MODULE HrleRefuse -----------------------------
(* Which calls have to be refused, and the judgement of recorded calls (property C06).  A    *)
(* recorded call is a step of this specification only if it is refused where that is          *)
(* required, and if it touched nothing but the buffers it was given.                          *)
EXTENDS HrleFormat, HrleCodecs, HrlePack, TLC, TLCExt, IOUtils, Json

Prop   == IOEnv.HRK_PROP
Events == ndJsonDeserialize(IOEnv.HRK_EVENTS)
NEv    == Len(Events)
B(i) == PackByte(i)
Seqs(s) == {s[k] : k \in DOMAIN s}

\* sizes are pairs <<high, low>> of 16 bits
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Zero == <<0, 0>>
MaxIn == <<16384, 0>>                       \* 2^30, the largest input
Pair(v) == <<v \div 65536, v % 65536>>
Word(p) == <<B(p + 2) + 256 * B(p + 3), B(p) + 256 * B(p + 1)>>

Trans(c) == c.fam \in {"mtf", "delta"}
HeaderN(c, p) == IF c.fam \in {"le", "lem"} THEN Word(p + 4) ELSE Word(p)
HeaderM(c, p) == IF c.fam \in {"le", "lem"} THEN Word(p) ELSE Word(p + 4)
HeaderSize(c) == CASE c.fam = "le" -> 8 [] c.fam = "lem" -> 12 [] OTHER -> c.hdr
Small(a) == a[1] < 256                      \* fits TLC's integers with room to spare
Num(a) == a[1] * 65536 + a[2]

RefuseC(e) ==
  LET c == Codecs[e.c] IN
    CASE e.in = 0 \/ e.out = 0 -> "missing buffer"
      [] e.n = Zero -> "empty input"
      [] ~Trans(c) /\ Lt(MaxIn, e.n) -> "input too large"
      [] Lt(e.o, IF Trans(c) THEN e.n ELSE e.bd) -> "output too small"
      [] OTHER -> ""

\* the table of a low entropy stream: 32 bytes of flags, the number of listed symbols, the list
TableEnd(p) == p + 33 + (IF B(p + 32) = 0 THEN 255 ELSE B(p + 32))
RefuseD(e) ==
  LET c == Codecs[e.c]
      i == Num(e.i)
      secs == Word(e.s + 8)
      tab  == 8 + (IF c.fam = "le" THEN 0 ELSE 4 + 4 * (Num(secs) - 1))
  IN CASE e.in = 0 \/ e.out = 0 -> "missing buffer"
       [] e.i = Zero -> "empty input"
       [] Trans(c) -> IF Lt(e.o, e.i) THEN "output too small" ELSE ""
       [] i < HeaderSize(c) -> "shorter than its header"
       [] Lt(e.i, HeaderM(c, e.s)) -> "shorter than its header claims"
       [] Lt(e.o, HeaderN(c, e.s)) -> "output too small"
       [] c.fam \in {"plain", "packed"} /\ (c.hdr = 10 \/ (c.hdr = 9 /\ ~c.single)) /\ B(e.s + 8) > 1 -> "unknown mode"
       [] c.fam = "lem" /\ secs = Zero -> "no sections"
       [] c.fam = "lem" /\ ~Small(secs) -> "section table beyond the stream"
       [] c.fam \in {"le", "lem"} /\ tab + 33 > i -> "table beyond the stream"
       [] c.fam \in {"le", "lem"} /\ TableEnd(e.s + tab) - e.s > i -> "table beyond the stream"
       [] c.fam = "lem" /\ \E s \in 0..(Num(secs) - 2) : Lt(HeaderM(c, e.s), Word(e.s + 12 + 4 * s)) -> "section beyond the stream"
       [] OTHER -> ""

RefuseS(e) ==
  CASE e.n = Zero -> "empty input"
    [] e.secs = Zero -> "no sections"
    [] Lt(e.n, e.secs) -> "more sections than bytes"
    [] Lt(e.o, e.bd) -> "output too small"
    [] OTHER -> ""

RefuseB(e) ==
  CASE e.p = 0 -> "missing argument"
    [] e.c \in {"get_compress_info", "get_compress_info_only_max_frequency", "compress_with_info", "short_compress_with_info"} /\ e.n = Zero -> "empty input"
    [] e.c \in {"write_compress_info", "compress_with_info", "short_compress_with_info"} /\ Lt(e.o, e.need) -> "output too small"
    [] e.c \in {"read_decompress_info", "decompressed_size"} /\ Lt(e.n, e.need) -> "shorter than its header"
    [] OTHER -> ""

MustRefuse(e) == CASE e.k = "C" -> RefuseC(e) [] e.k = "D" -> RefuseD(e) [] e.k = "S" -> RefuseS(e) [] OTHER -> RefuseB(e)

\* what is wrong with a recorded call
Judge(e) ==
  LET why == MustRefuse(e) IN
  IF why = "" THEN {}
  ELSE {"accepted (" \o why \o ")" : r \in {x \in Seqs(e.rs) : x.f = "" /\ x.r # Zero}}
       \cup {why \o ": " \o r.f : r \in {x \in Seqs(e.rs) : x.f # ""}}

VARIABLES l, rej, cnt                        \* next call; rejected; [must: calls that had to be refused]
vars == <<l, rej, cnt>>
Init == l = 1 /\ rej = 0 /\ cnt = 0
Next ==
  /\ l <= NEv
  /\ LET e == Events[l]
         j == Judge(e)
     IN /\ \A y \in j : PrintT(<<"REJECT", Prop, e.id, e.c, y>>)
        /\ rej' = rej + (IF j = {} THEN 0 ELSE 1)
        /\ cnt' = cnt + (IF MustRefuse(e) = "" THEN 0 ELSE 1)
  /\ l' = l + 1
View == <<l, rej, cnt>>
Spec == Init /\ [][Next]_vars
WalkInv == rej <= l
Finish == l = NEv + 1 => PrintT(<<"CONSUMED", NEv, NEv, 0, cnt, rej>>)
=============================================================================
