------------------------------ MODULE HrleTrace ------------------------------
(* Checks what the real code did (events + pack, recorded by the harness) against the       *)
(* specification.  The trace is walked event by event; streams are walked token by token    *)
(* with the readers of HrleFormat.  A step the specification does not allow is reported and *)
(* counted, and the walk goes on with the next event.                                       *)
EXTENDS HrleFormat, HrleCodecs, HrlePack, TLC, TLCExt, IOUtils, Json

Prop   == IOEnv.HRK_PROP                       \* the property being decided
Events == ndJsonDeserialize(IOEnv.HRK_EVENTS)
NEv    == Len(Events)

VARIABLES l,      \* next event
          todo,   \* streams of the current event still to be walked
          w,      \* the walk under way ([on |-> FALSE] when there is none)
          rej,    \* events rejected so far
          cnt     \* [ev, st, tk]: events, streams, tokens accepted
vars == <<l, todo, w, rej, cnt>>

B(i) == PackByte(i)
Off == [on |-> FALSE]
Seqs(s) == {s[k] : k \in DOMAIN s}
None == 8                                       \* level with every instruction-set extension disabled
Levels(r) == Seqs(r.lv)

-----------------------------------------------------------------------------
(* What is allowed to be refused: the move-to-front transforms (and the codec built on     *)
(* them) without SSE2; more sections than bytes.                                            *)
Transform(c) == c.fam \in {"mtf", "delta"}
Sections(e) == IF "sec" \in DOMAIN e THEN e.sec ELSE Codecs[e.c].lut      \* 0: any number
MayRefuse(e, lvs) ==
  LET c == Codecs[e.c] IN
    \/ c.fam \in {"mtf", "mmtf"} /\ lvs \subseteq {None}
    \/ c.fam = "lem" /\ e.n < Sections(e)

Ran(r) == r.f = ""
\* compress results / decompress results of an event
CS(e) == Seqs(e.cs)
DS(e) == UNION {Seqs(c.d) : c \in CS(e)}
Overflow(r) == r.b = "write out after" \/ r.b = "returned size exceeds buffer" \/ r.f = "write out after"

JudgeC01(e) ==
     {"compression did not return: " \o r.f : r \in {x \in CS(e) : ~Ran(x) /\ Seqs(x.pl) # {0}}}
  \cup {"compression refused" : r \in {x \in CS(e) : Ran(x) /\ x.r = 0 /\ ~MayRefuse(e, Levels(x))}}
  \cup {"decompression did not return: " \o r.f : r \in {x \in DS(e) : ~Ran(x) /\ Seqs(x.pl) # {0}}}
  \cup {"decompressed length differs" : r \in {x \in DS(e) : Ran(x) /\ x.r # e.n /\ ~(x.r = 0 /\ MayRefuse(e, Levels(x)))}}
  \cup {"decompressed bytes differ" : r \in {x \in DS(e) : Ran(x) /\ x.r = e.n /\ ~PackSame(x.o, e.i, e.n)}}

JudgeC04(e) ==
     {"bound is zero" : x \in IF e.bd = 0 THEN {0} ELSE {}}
  \cup {"refused a buffer of the advertised size" : r \in {x \in CS(e) : Ran(x) /\ x.r = 0 /\ ~MayRefuse(e, Levels(x))}}
  \cup {"needs more than the bound" : r \in {x \in CS(e) : Overflow(x) \/ x.r > e.bd}}

(* Sizes up to the supported 2^30 as <<high 16 bits, low 16 bits>>.                              *)
Geq(a, b)   == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] >= b[2])
Plus(a, k)  == <<a[1] + ((a[2] + k) \div 65536), (a[2] + k) % 65536>>
Zero        == <<0, 0>>
\* an input that does not compress takes at least its literals, the header and the terminator
LeastExtra(c) == CASE c.fam \in {"plain", "packed", "lut", "short"} -> c.hdr + Len(WriteEnd(c, 100000))
                   [] c.fam \in {"mtf", "delta"} -> 0 [] c.fam \in {"le", "lem"} -> c.hdr + 33 [] OTHER -> 8
JudgeN(e) ==
     {"bound is zero" : x \in IF e.bd = Zero THEN {0} ELSE {}}
  \cup {"bound is too small for an input that does not compress" : x \in IF Geq(e.bd, Plus(e.n, LeastExtra(Codecs[e.c]))) THEN {} ELSE {0}}
(* Large inputs: only what came back is recorded. *)
ZMay(e, z) == Codecs[e.c].fam \in {"mtf", "mmtf"} /\ z.lv = None
ZRun(e) == {z \in Seqs(e.z) : ~(z.r = Zero /\ z.f = "" /\ ZMay(e, z))}
JudgeZ(e) ==
  LET c == Codecs[e.c] IN
  CASE Prop = "C01" ->
            {"compression did not return: " \o z.f : z \in {y \in ZRun(e) : y.f # ""}}
       \cup {"compression refused" : z \in {y \in ZRun(e) : y.f = "" /\ y.r = Zero}}
       \cup {"decompression did not return: " \o z.df : z \in {y \in ZRun(e) : y.df # ""}}
       \cup {"decompressed length differs" : z \in {y \in ZRun(e) : y.r # Zero /\ y.df = "" /\ y.d # e.n}}
       \cup {"decompressed bytes differ" : z \in {y \in ZRun(e) : y.r # Zero /\ y.df = "" /\ y.d = e.n /\ y.same # 1}}
    [] Prop = "C04" ->
            {"bound is zero" : x \in IF e.bd = Zero THEN {0} ELSE {}}
       \cup {"refused a buffer of the advertised size" : z \in {y \in ZRun(e) : y.f = "" /\ y.r = Zero}}
       \cup {"needs more than the bound" : z \in {y \in ZRun(e) : y.f = "write out after" \/ ~Geq(e.bd, y.r)}}
    [] Prop = "C07" ->
       IF c.fam \in {"mtf", "delta"} THEN {"transform changed the length" : z \in {y \in ZRun(e) : y.f = "" /\ y.r # e.n}}
       ELSE {"header states another length" : z \in {y \in ZRun(e) : y.f = "" /\ y.r # Zero /\
               (IF c.fam \in {"le", "lem"} THEN y.h0 # y.r \/ y.h1 # e.n ELSE y.h0 # e.n \/ y.h1 # y.r)}}
       \cup {"decompression returned another length" : z \in {y \in ZRun(e) : y.r # Zero /\ y.df = "" /\ y.d # e.n}}
    [] Prop = "C11" /\ e.run = 1 ->
       \* one token, however long the run is (low entropy: one per 255 bytes or fewer)
       {"a long run takes more than a token" : z \in {y \in ZRun(e) : y.f = "" /\
          IF c.fam \in {"le", "lem"} THEN y.r[1] > ((2 * e.n[1]) \div (IF c.fam = "lem" THEN 255 ELSE c.min)) + 1 ELSE ~(c.fam \in {"mtf", "delta"}) /\ ~Geq(<<0, 200>>, y.r)}}
    [] OTHER -> {}
\* a stream of the specification whose content is described, not recorded
JudgeY(e) ==
     {"decompression did not return: " \o y.df : y \in {z \in Seqs(e.z) : z.df # ""}}
  \cup {"refused a well-formed stream" : y \in {z \in Seqs(e.z) : z.df = "" /\ z.d = Zero}}
  \cup {"decompressed length differs" : y \in {z \in Seqs(e.z) : z.df = "" /\ z.d # Zero /\ z.d # e.n}}
  \cup {"decompressed bytes differ" : y \in {z \in Seqs(e.z) : z.df = "" /\ z.d = e.n /\ z.same # 1}}

JudgeC05(e) ==
     {"compression: " \o r.f \o r.b : r \in {x \in CS(e) : x.f # "" \/ x.b # ""}}
  \cup {"decompression: " \o r.f \o r.b : r \in {x \in DS(e) : x.f # "" \/ x.b # ""}}

\* two results that share a level must be the same
Differ(S) == {<<a, b>> \in S \X S : /\ Ran(a) /\ Ran(b) /\ Levels(a) \cap Levels(b) # {}
                                    /\ (a.r # b.r \/ ~PackSame(a.o, b.o, a.r))}
JudgeC08(e) ==
     {"compressed bytes depend on more than the input" : x \in Differ(CS(e))}
  \cup {"decompressed bytes depend on more than the input" : x \in UNION {Differ(Seqs(c.d)) : c \in CS(e)}}

\* the same call again, after other calls
JudgeH(e) ==
     {"a later call did not return: " \o e.f : x \in IF e.f # "" THEN {0} ELSE {}}
  \cup {"the result depends on earlier calls" : x \in IF e.f = "" /\ (e.r # e.r2 \/ ~PackSame(e.o, e.o2, e.r)) THEN {0} ELSE {}}

\* sizes: header, returned size, query, exact and over-stated input length
HeaderN(c, p) == IF c.fam \in {"le", "lem"} THEN U32(B, p + 4) ELSE U32(B, p)
HeaderM(c, p) == IF c.fam \in {"le", "lem"} THEN U32(B, p) ELSE U32(B, p + 4)
Streams(e) == {x \in CS(e) : Ran(x) /\ x.r # 0}
JudgeC07(e) ==
  LET c == Codecs[e.c] IN
     {"shorter than its header" : x \in {y \in Streams(e) : ~Transform(c) /\ y.r < 8}}
  \cup {"header states another original length" : x \in {y \in Streams(e) : ~Transform(c) /\ y.r >= 8 /\ HeaderN(c, y.o) # e.n}}
  \cup {"header states another stream length" : x \in {y \in Streams(e) : ~Transform(c) /\ y.r >= 8 /\ HeaderM(c, y.o) # y.r}}
  \cup {"transform changed the length" : x \in {y \in Streams(e) : Transform(c) /\ y.r # e.n}}
  \cup {"decompression returned another length" : r \in {x \in DS(e) : Ran(x) /\ x.r # e.n /\ ~(x.r = 0 /\ MayRefuse(e, Levels(x)))}}
  \cup {"size query disagrees" : x \in {y \in Streams(e) : "q" \in DOMAIN y /\ y.q # e.n}}

JudgeC12(e) ==
  LET c == Codecs[e.c] IN
  IF ~Transform(c) THEN {} ELSE
     {"refused" : x \in {y \in CS(e) : y.f # "" \/ (y.r = 0 /\ ~MayRefuse(e, Levels(y)))}}
  \cup {"ran where it is unavailable" : x \in {y \in CS(e) : c.fam = "mtf" /\ None \in Levels(y) /\ y.r # 0}}
  \cup {"length changed" : x \in {y \in Streams(e) : y.r # e.n}}
  \cup {"not the prescribed sequence" : x \in {y \in Streams(e) : y.r = e.n
           /\ ~(IF c.fam = "mtf" THEN PackMtf(e.i, y.o, e.n, c.size) ELSE PackDelta(e.i, y.o, e.n, c.size))}}
  \cup {"not restored" : x \in {y \in DS(e) : ~(y.r = 0 /\ y.f = "" /\ MayRefuse(e, Levels(y)))
           /\ (y.f # "" \/ y.r # e.n \/ ~PackSame(y.o, e.i, e.n))}}

\* C11: the job says how many literals and runs the input is made of and what a run may cost
JudgeC11(e) ==
  IF "x" \notin DOMAIN e THEN {} ELSE
     {"refused" : x \in {y \in CS(e) : Ran(y) /\ y.r = 0 /\ ~MayRefuse(e, Levels(y))}}
  \cup {"larger than its literals and runs need" : x \in {y \in Streams(e) : y.r > e.x}}

\* C13: the building blocks give the stream of the one call they make up (jobs list the one-call codec first)
OneCall == [rle8_low_entropy_info |-> "rle8_low_entropy", rle8_low_entropy_max_info |-> "rle8_low_entropy_max"]
JudgeC13(e, prev) ==
  JudgeC01(e) \cup
  (IF e.c \notin DOMAIN OneCall \/ prev.id # e.id \/ prev.c # OneCall[e.c] THEN {} ELSE
   {"building blocks give another stream" : p \in {<<x, y>> \in CS(e) \X CS(prev) :
      Ran(x) /\ Ran(y) /\ Levels(x) \cap Levels(y) # {} /\ (x.r # y.r \/ ~PackSame(x.o, y.o, x.r))}})

-----------------------------------------------------------------------------
(* Decoder results on a stream of the specification (D events).  `x`: a result to walk the  *)
(* stream against.                                                                          *)
JudgeD(e) ==
     {"decompression did not return: " \o r.f : r \in {x \in Seqs(e.d) : ~Ran(x) /\ Seqs(x.pl) # {0}}}
  \cup {"decompressed length differs" : r \in {x \in Seqs(e.d) : Ran(x) /\ x.r # e.n /\ ~(x.r = 0 /\ MayRefuse(e, Levels(x)))}}
  \cup {"decoder variants disagree" : p \in {<<x, y>> \in Seqs(e.d) \X Seqs(e.d) :
           Ran(x) /\ Ran(y) /\ x.r = e.n /\ y.r = e.n /\ ~PackSame(x.o, y.o, e.n)}}

Judge(e) ==
  CASE e.k = "E" /\ Prop \in {"C01"} -> JudgeC01(e)
    [] e.k = "E" /\ Prop = "C04" -> JudgeC04(e)
    [] e.k = "E" /\ Prop = "C05" -> JudgeC05(e)
    [] e.k = "E" /\ Prop = "C07" -> JudgeC07(e)
    [] e.k = "E" /\ Prop = "C08" -> JudgeC08(e)
    [] e.k = "E" /\ Prop = "C11" -> JudgeC11(e)
    [] e.k = "E" /\ Prop = "C12" -> JudgeC12(e)
    [] e.k = "E" /\ Prop = "C13" -> JudgeC13(e, Events[Max(l - 1, 1)])
    [] e.k = "D" /\ Prop \in {"C03", "C13"} -> JudgeD(e)
    [] e.k = "N" /\ Prop = "C04" -> JudgeN(e)
    [] e.k = "Z" -> JudgeZ(e)
    [] e.k = "Y" /\ Prop = "C03" -> JudgeY(e)
    [] e.k = "H" /\ Prop = "C08" -> JudgeH(e)
    [] e.k = "D" /\ Prop = "C05" -> {"decompression: " \o r.f \o r.b : r \in {x \in Seqs(e.d) : x.f # "" \/ x.b # ""}}
    [] e.k = "D" /\ Prop = "C08" -> {"decompressed bytes depend on more than the input" : x \in Differ(Seqs(e.d))}
    [] OTHER -> {}

\* the streams of an event that are walked: [s: first byte, m: length, x: content, n: its length]
WalkList(e) ==
  CASE e.k = "E" /\ Prop \in {"C02", "C07", "C13"} ->
         {[s |-> y.o, m |-> y.r, x |-> e.i, n |-> e.n] : y \in Streams(e)}
    [] e.k = "D" /\ Prop \in {"C03", "C13"} ->
         LET good == {y \in Seqs(e.d) : Ran(y) /\ y.r = e.n}
         IN IF good = {} THEN {} ELSE {[s |-> e.s, m |-> e.sn, x |-> (CHOOSE y \in good : TRUE).o, n |-> e.n]}
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* Walking a stream.  w = [on, e, c, s, m, x, n, p, o, st, pc]: event, codec, stream, its length, content,  *)
(* content length, read position, bytes accounted for, reader state.                                        *)
WithContent == Prop # "C07"                    \* C07 only asks whether the sizes fit
LitOk(wk, at, n)      == ~WithContent \/ PackSame(at, wk.x + wk.o, n)
RunOk(wk, o, n, sym)  == ~WithContent \/ PackRun(wk.x + o, n, sym)
Fits(wk, k)           == k >= 0 /\ wk.o + k <= wk.n
Inside(wk, p)         == p >= wk.s /\ p <= wk.s + wk.m

Fail(why) == [bad |-> TRUE, why |-> why]
Go(wk)    == [bad |-> FALSE, end |-> FALSE, w |-> wk]
Done      == [bad |-> FALSE, end |-> TRUE]

(* ---- run-length token families ---- *)
StepTok(wk) ==
  LET t == ReadTok(B, wk.c, wk.p, wk.st)
  IN IF t.err # "" THEN Fail(t.err)
     ELSE IF ~Inside(wk, t.nx) THEN Fail("token reaches beyond the stream")
     ELSE IF ~Fits(wk, t.lit) \/ ~Fits(wk, t.lit + t.run) THEN Fail("token produces more than the original length")
     ELSE IF ~LitOk(wk, t.at, t.lit) THEN Fail("literals are not the input's bytes")
     ELSE IF ~RunOk(wk, wk.o + t.lit, t.run, t.sym) THEN Fail("run is not the input's bytes")
     ELSE IF ~t.end THEN Go([wk EXCEPT !.p = t.nx, !.o = wk.o + t.lit + t.run, !.st = t.cache])
     ELSE IF wk.o + t.lit # wk.n THEN Fail("stream ends before the original length is reached")
     ELSE IF wk.s + wk.m - t.nx \notin EndPad(wk.c, t) THEN Fail("stream length does not end at its terminator")
     ELSE Done

(* ---- rle8_sh: commands are bits read backwards from the stream's end, data bytes forwards ---- *)
ShBit(wk, k) == (B(wk.s + wk.m - 1 - (k \div 8)) \div Pow2(k % 8)) % 2
ShEmit(wk, sym) == Fits(wk, 1) /\ (~WithContent \/ B(wk.x + wk.o) = sym)
\* copying a symbol explicitly: seen twice in a row without being remembered, it is remembered
ShSeen(st, sym) == [st EXCEPT !.s3 = IF sym = st.lo THEN st.s2 ELSE st.s3, !.s2 = IF sym = st.lo THEN sym ELSE st.s2, !.lo = sym]
StepSh(wk) ==
  LET st == wk.st
      b(i) == ShBit(wk, st.k + i)
      adv(n) == [st EXCEPT !.k = st.k + n]
      rem(s) == [s EXCEPT !.rem = IF st.rem > 0 THEN st.rem - 1 ELSE 0]
      one(sym, s, p) == IF ShEmit(wk, sym) THEN Go([wk EXCEPT !.o = wk.o + 1, !.p = p, !.st = rem(s)]) ELSE Fail("symbol is not the input's byte")
      lit(n, p, k) == IF ~Fits(wk, n) \/ ~Inside(wk, p + n) THEN Fail("copy does not fit")
                      ELSE IF ~LitOk(wk, p, n) THEN Fail("literals are not the input's bytes")
                      ELSE Go([wk EXCEPT !.o = wk.o + n, !.p = p + n, !.st = adv(k)])
      run(n, sym, p, s) == IF ~Fits(wk, n) THEN Fail("run does not fit")
                           ELSE IF ~RunOk(wk, wk.o, n, <<sym>>) THEN Fail("run is not the input's bytes")
                           ELSE Go([wk EXCEPT !.o = wk.o + n, !.p = p, !.st = s])
  IN IF st.k > 8 * wk.m THEN Fail("commands reach beyond the stream")
     ELSE IF b(0) = 0 THEN one(st.lr, adv(1), wk.p)
     ELSE IF b(1) = 0 THEN one(B(wk.p), ShSeen(adv(2), B(wk.p)), wk.p + 1)
     ELSE IF b(2) = 0 THEN one(st.s2, [adv(3) EXCEPT !.lo = st.s2], wk.p)
     ELSE IF st.rem > 0 THEN one(st.s3, [adv(3) EXCEPT !.lo = st.s3], wk.p)
     ELSE IF b(3) = 0 THEN one(st.s3, [adv(4) EXCEPT !.lo = st.s3], wk.p)
     ELSE IF b(4) = 0 THEN run(B(wk.p) + 14, st.lr, wk.p + 1, adv(5))
     ELSE LET kind == b(5) + 2 * b(6) IN
          CASE kind = 0 -> lit(B(wk.p) + 7, wk.p + 1, 7)
            [] kind = 1 -> IF S32(B, wk.p) = 0
                           THEN IF wk.o # wk.n THEN Fail("stream ends before the original length is reached")
                                ELSE LET used == (wk.p + 4 - wk.s) + ((st.k + 7 + 7) \div 8)
                                     IN IF used # wk.m THEN Fail("stream length does not end at its terminator") ELSE Done
                           ELSE lit(S32(B, wk.p) + 7, wk.p + 4, 7)
            [] kind = 2 -> run(S32(B, wk.p) + 14, B(wk.p + 4), wk.p + 5, [adv(7) EXCEPT !.lr = B(wk.p + 4)])
            [] OTHER    -> Go([wk EXCEPT !.p = wk.p + 1, !.st = [adv(7) EXCEPT !.rem = B(wk.p) + 161]])

(* ---- rle8_mmtf128: runs and (packed) copies of blocks of 16 move-to-front ranks ---- *)
Rank(wk, blk, lane) == LaneRank(wk.x, wk.o + 16 * blk + lane, 16)
Lanes == 0..15
MmtfCopyBytes(mode, n) ==
  CASE mode = 0 -> 16 * n
    [] mode = 3 -> 16 * (n \div 4) + 4 * (n % 4)
    [] mode = 2 -> 36 * (n \div 6) + 6 * (n % 6)
    [] OTHER    -> 16 * (n \div 2) + 8 * (n % 2)
MmtfCopyOk(wk, mode, n, p) ==
  LET R(b, j) == Rank(wk, b, j) IN
  CASE mode = 0 -> \A b \in 0..(n - 1), j \in Lanes : B(p + 16 * b + j) = R(b, j)
    [] mode = 3 -> /\ \A g \in 0..(n \div 4 - 1), j \in Lanes :
                        B(p + 16 * g + j) = R(4*g, j) + 4 * R(4*g+1, j) + 16 * R(4*g+2, j) + 64 * R(4*g+3, j)
                   /\ \A r \in 0..((n % 4) - 1), j \in 0..3 :
                        LET b == 4 * (n \div 4) + r
                        IN B(p + 16 * (n \div 4) + 4 * r + j) = R(b, j) + 4 * R(b, j+4) + 16 * R(b, j+8) + 64 * R(b, j+12)
    [] mode = 2 -> /\ \A g \in 0..(n \div 6 - 1), j \in Lanes :
                        LET q == p + 36 * g
                            top(b) == (R(b, j) \div 4) % 2
                            bit(a) == (B(a + (j \div 8)) \div Pow2(j % 8)) % 2
                        IN /\ \A k \in 0..5 : R(6*g+k, j) < 8
                           /\ B(q + j) = R(6*g, j) + 8 * R(6*g+1, j) + 64 * (R(6*g+2, j) % 4)
                           /\ B(q + 16 + j) = R(6*g+3, j) + 8 * R(6*g+4, j) + 64 * (R(6*g+5, j) % 4)
                           /\ bit(q + 32) = top(6*g+2)
                           /\ bit(q + 34) = top(6*g+5)
                   /\ \A r \in 0..((n % 6) - 1), j \in Lanes :
                        LET b == 6 * (n \div 6) + r
                            q == p + 36 * (n \div 6) + 6 * r
                        IN /\ R(b, j) < 8
                           /\ \A t \in 0..2 : (B(q + 2 * t + (j \div 8)) \div Pow2(j % 8)) % 2 = (R(b, j) \div Pow2(t)) % 2
    [] OTHER    -> /\ \A g \in 0..(n \div 2 - 1), j \in Lanes : B(p + 16 * g + j) = 16 * R(2*g, j) + R(2*g+1, j)
                   /\ n % 2 = 0 \/ \A j \in 0..7 : B(p + 16 * (n \div 2) + j) = R(n - 1, j) + 16 * R(n - 1, j + 8)
StepMmtf(wk) ==
  LET h    == B(wk.p)
      v    == IF h % 2 = 1 THEN U32(B, wk.p) \div 8 ELSE h \div 8
      q    == wk.p + (IF h % 2 = 1 THEN 4 ELSE 1)
      mode == (h \div 2) % 4
      q2   == q + MmtfCopyBytes(mode, v)
      g    == B(q2)
      rv   == IF g % 2 = 1 THEN U32(B, q2) \div 2 ELSE g \div 2
      q3   == q2 + (IF g % 2 = 1 THEN 4 ELSE 1)
      o2   == wk.o + 16 * v
      idx  == B(q3)
      tail == wk.n % 16
  IN IF v > wk.n \/ ~Fits(wk, 16 * v) \/ ~Inside(wk, q2 + 1) THEN Fail("copy does not fit")
     ELSE IF WithContent /\ ~MmtfCopyOk(wk, mode, v, q) THEN Fail("ranks are not the input's")
     ELSE IF rv > wk.n \/ o2 + 16 * rv > wk.n \/ ~Inside(wk, q3) THEN Fail("run does not fit")
     ELSE IF rv = 0
     THEN IF o2 + tail # wk.n THEN Fail("stream ends before the original length is reached")
          ELSE IF wk.s + wk.m # q3 + tail THEN Fail("stream length does not end at its terminator")
          ELSE IF WithContent /\ \E j \in 0..(tail - 1) : B(q3 + j) # LaneRank(wk.x, o2 + j, 16) THEN Fail("last ranks are not the input's")
          ELSE Done
     ELSE IF WithContent /\ \E k \in 0..(16 * rv - 1) : LaneRank(wk.x, o2 + k, 16) # idx THEN Fail("run is not the input's ranks")
     ELSE Go([wk EXCEPT !.p = q3 + 1, !.o = o2 + 16 * rv])

(* ---- low entropy: a table of run symbols and of the order in which symbols stand for counts ---- *)
LeInfo(p) ==                             \* [rle: run symbols, tab: position of the list, num: its length, nx]
  LET k   == B(p + 32)
      num == IF k = 0 THEN 255 ELSE k
  IN [rle |-> {v \in 0..255 : (B(p + v \div 8) \div Pow2(v % 8)) % 2 = 1}, tab |-> p + 33, num |-> num, nx |-> p + 33 + num]
\* the count a byte stands for: its place in the list; unlisted bytes follow in ascending order
LeListed(st, v) == PackFind(st.tab, st.tab + st.num, {v}) < st.tab + st.num
LeCount(st, v) == IF LeListed(st, v) THEN PackFind(st.tab, st.tab + st.num, {v}) - st.tab
                  ELSE st.num + Cardinality({u \in 0..(v - 1) : ~LeListed(st, u)})
LeSections(wk) == IF wk.c.fam = "lem" THEN U32(B, wk.s + 8) ELSE 1
LeEnd(wk, sec, k) == IF sec = k - 1 THEN wk.s + wk.m ELSE wk.s + U32(B, wk.s + 12 + 4 * sec)
LeOutEnd(wk, sec, k) == IF sec = k - 1 THEN wk.n ELSE (sec + 1) * (wk.n \div k)
StepLe(wk) ==
  LET st  == wk.st
      to  == wk.st.to
      q   == PackFind(wk.p, to, st.rle)
      n   == q - wk.p
      sym == B(q)
      run == 1 + LeCount(st, B(q + 1))
  IN IF wk.p = to
     THEN IF wk.o # LeOutEnd(wk, st.sec, st.k) THEN Fail("section ends at another place than its share of the input")
          ELSE IF st.sec = st.k - 1 THEN Done
          ELSE LET e == LeEnd(wk, st.sec + 1, st.k)
               IN IF e < to \/ ~Inside(wk, e) THEN Fail("section end is not ascending")
                  ELSE Go([wk EXCEPT !.st = [st EXCEPT !.sec = st.sec + 1, !.to = e]])
     ELSE IF ~Fits(wk, n) \/ ~LitOk(wk, wk.p, n) THEN Fail("literals are not the input's bytes")
     ELSE IF q = to THEN Go([wk EXCEPT !.p = to, !.o = wk.o + n])
     ELSE IF q + 2 > to THEN Fail("run symbol without its count")
     ELSE IF ~Fits(wk, n + run) \/ ~RunOk(wk, wk.o + n, run, <<sym>>) THEN Fail("run is not the input's bytes")
     ELSE Go([wk EXCEPT !.p = q + 2, !.o = wk.o + n + run])

StartLe(wk) ==
  LET k  == LeSections(wk)
      at == IF wk.c.fam = "lem" THEN wk.s + 12 + 4 * (k - 1) ELSE wk.s + 8
      i  == LeInfo(at)
  IN IF U32(B, wk.s) # wk.m THEN Fail("header states another stream length")
     ELSE IF U32(B, wk.s + 4) # wk.n THEN Fail("header states another original length")
     ELSE IF wk.c.fam = "lem" /\ Sections(Events[wk.e]) \notin {0, k} THEN Fail("header states another number of sections")
     ELSE IF ~Inside(wk, i.nx) THEN Fail("table reaches beyond the stream")
     ELSE Go([wk EXCEPT !.p = i.nx, !.st = [rle |-> i.rle, tab |-> i.tab, num |-> i.num, sec |-> 0, k |-> k, to |-> LeEnd(wk, 0, k)]])

StartTok(wk) ==
  LET h == ReadHeader(B, wk.c, wk.s)
  IN IF wk.m < wk.c.hdr THEN Fail("shorter than its header")
     ELSE IF h.n # wk.n THEN Fail("header states another original length")
     ELSE IF h.m # wk.m THEN Fail("header states another stream length")
     ELSE IF h.err # "" THEN Fail("header has another " \o h.err)
     ELSE Go([wk EXCEPT !.p = h.at,
                        !.st = CASE wk.c.fam = "sh" -> [k |-> 0, lr |-> 127, s2 |-> 128, s3 |-> 126, lo |-> 128, rem |-> 0]
                                 [] wk.c.fam = "mmtf" -> 0
                                 [] OTHER -> h.cache])
Start(wk) == IF wk.c.fam \in {"le", "lem"} THEN StartLe(wk) ELSE StartTok(wk)
Step(wk) == CASE wk.c.fam \in {"plain", "packed", "lut", "short"} -> StepTok(wk)
              [] wk.c.fam = "sh" -> StepSh(wk)
              [] wk.c.fam = "mmtf" -> StepMmtf(wk)
              [] wk.c.fam \in {"le", "lem"} -> StepLe(wk)

-----------------------------------------------------------------------------
Reject(e, why) == PrintT(<<"REJECT", Prop, e.id, e.c, why>>)

Init == l = 1 /\ todo = {} /\ w = Off /\ rej = 0 /\ cnt = [ev |-> 0, st |-> 0, tk |-> 0]

TakeEvent ==
  /\ ~w.on /\ todo = {} /\ l <= NEv
  /\ LET e  == Events[l]
         js == Judge(e)
         wl == IF Transform(Codecs[e.c]) THEN {} ELSE WalkList(e)
     IN /\ l' = l + 1
        /\ IF js = {} THEN /\ todo' = {[k \in (DOMAIN x) \cup {"e"} |-> IF k = "e" THEN l ELSE x[k]] : x \in wl}
                           /\ rej' = rej
                      ELSE /\ \A y \in js : Reject(e, y)
                           /\ todo' = {} /\ rej' = rej + 1
        /\ cnt' = [cnt EXCEPT !.ev = @ + 1]
        /\ UNCHANGED w

Ended(e, r) ==
  IF r.bad THEN /\ Reject(Events[e], r.why)
                /\ rej' = rej + 1 /\ w' = Off /\ todo' = {} /\ UNCHANGED cnt
  ELSE IF r.end THEN /\ w' = Off /\ cnt' = [cnt EXCEPT !.st = @ + 1] /\ UNCHANGED <<rej, todo>>
  ELSE /\ w' = r.w /\ cnt' = [cnt EXCEPT !.tk = @ + 1] /\ UNCHANGED <<rej, todo>>

StartWalk ==
  /\ ~w.on /\ todo # {}
  /\ LET t  == CHOOSE x \in todo : TRUE
         wk == [on |-> TRUE, e |-> t.e, c |-> Codecs[Events[t.e].c], s |-> t.s, m |-> t.m, x |-> t.x, n |-> t.n, p |-> 0, o |-> 0, st |-> 0]
         r  == Start(wk)
     IN IF r.bad THEN Reject(Events[t.e], r.why) /\ rej' = rej + 1 /\ todo' = {} /\ UNCHANGED <<w, cnt>>
        ELSE w' = r.w /\ todo' = todo \ {t} /\ UNCHANGED <<rej, cnt>>
  /\ UNCHANGED l

StepWalk == w.on /\ Ended(w.e, Step(w)) /\ UNCHANGED l

Next == TakeEvent \/ StartWalk \/ StepWalk
\* every step changes one of these, so they identify the state (cheaper to fingerprint than the walk)
View == <<l, Cardinality(todo), w.on, rej, cnt>>
Spec == Init /\ [][Next]_vars

\* bytes accounted for never exceed the content, and the reader never leaves the stream
WalkInv == w.on => w.o <= w.n /\ w.p >= w.s /\ w.p <= w.s + w.m
AtEnd == l = NEv + 1 /\ todo = {} /\ ~w.on
\* printed when the trace is consumed: the driver requires it
Finish == AtEnd => PrintT(<<"CONSUMED", NEv, cnt.ev, cnt.st, cnt.tk, rej>>)
=============================================================================
