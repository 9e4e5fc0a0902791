------------------------------ MODULE HrleModel ------------------------------
(* Writer and reader in lockstep, exhaustively on small inputs.  The writer is any encoder    *)
(* that obeys the format: at every position it may copy any number of literals, then take any  *)
(* run that is there, in any cache slot that holds the symbol (or as a new symbol), in any of   *)
(* the forms the format has for the fields.  The reader takes the bytes off again with nothing  *)
(* but its own cache.  Checked: the reader reproduces the input, never takes a token for the    *)
(* end or the end for a token, both caches move together, tokens are prefix free against the    *)
(* terminator, and no token needs more than the widest form of its fields.                      *)
EXTENDS HrleFormat, HrleCodecs, TLC
CONSTANTS L, MaxSize

VARIABLES c, in, pos, wc, rc, out, size, ended
vars == <<c, in, pos, wc, rc, out, size, ended>>

Small == {Codecs[k] : k \in {x \in DOMAIN Codecs : Codecs[x].fam \in {"plain", "packed", "lut", "short"} /\ Codecs[x].size <= MaxSize}}
\* the symbols: an initial one, another initial one, and one that is not
Alphabet == {0, 127, 9}
Fixed == 9                                        \* the symbol of the single symbol codecs
Init == /\ c \in Small /\ in \in [1..L -> Alphabet] /\ pos = 0
        /\ wc = (IF c.single THEN << [j \in 1..c.size |-> Fixed] >> ELSE InitCache(c)) /\ rc = wc
        /\ out = <<>> /\ size = c.hdr /\ ended = FALSE

Slice(a, n) == SubSeq(in, a + 1, a + n)
Rep(s, n) == [k \in 1..n |-> s[((k - 1) % Len(s)) + 1]]
Slots(sym) ==                                     \* where the symbol may be taken from
  IF c.fam = "plain" \/ (c.fam = "short" /\ c.lut = 0) THEN IF c.single /\ wc[1] # sym THEN {} ELSE {0}
  ELSE IF c.single THEN IF wc[1] = sym THEN {0} ELSE {}
  ELSE IF c.fam = "packed" THEN {1} \cup (IF wc[1] = sym THEN {0} ELSE {})
  ELSE {c.lut} \cup {i \in 0..(c.lut - 1) : wc[i + 1] = sym}
Moved(sym, idx) == IF c.single \/ c.fam = "plain" \/ (c.fam = "short" /\ c.lut = 0) THEN wc
                   ELSE IF c.fam = "packed" THEN <<sym>> ELSE Touch(wc, idx, sym)
\* read what was just written: token bytes at 1, the literals behind them
Back(bs, lits) == LET B(p) == IF p <= Len(bs) THEN bs[p] ELSE IF p <= Len(bs) + Len(lits) THEN lits[p - Len(bs)] ELSE 255
                  IN ReadTok(B, c, 1, rc)

Token ==
  /\ ~ended
  /\ \E lit \in 0..(L - pos) : \E run \in 1..(L - pos - lit) :
     \E sym \in {Slice(pos + lit, Min(c.size, run))} :
       /\ run >= c.size /\ Slice(pos + lit, run) = Rep(sym, run) /\ (c.sym => run % c.size = 0)
       /\ CountOf(c, run) >= FieldOff(c)
       /\ \E idx \in Slots(sym), wide \in 0..(IF c.fam = "short" THEN 2 ELSE 1) :
          \E bs \in {WriteTok(c, [idx |-> idx, sym |-> sym, cnt |-> CountOf(c, run), rng |-> lit + FieldOff(c)], wc, wide)} :
          \E t \in {Back(bs, Slice(pos, lit))} :
            /\ Assert(t.err = "", <<"error", c, t>>)
            /\ Assert(~t.end, <<"a token reads as the end", c, bs>>)
            /\ Assert(t.at = Len(bs) + 1 /\ t.lit = lit /\ t.run = run /\ t.sym = sym /\ t.nx = Len(bs) + 1 + lit, <<"another token is read", c, bs, t>>)
            /\ out' = out \o Slice(pos, t.lit) \o Rep(t.sym, t.run)
            /\ rc' = t.cache /\ wc' = Moved(sym, idx)
            /\ size' = size + Len(bs) + lit
            /\ pos' = pos + lit + run
  /\ UNCHANGED <<c, in, ended>>
End ==
  /\ ~ended
  /\ \E bs \in {WriteEnd(c, L - pos)} :
     \E t \in {Back(bs, Slice(pos, L - pos))} :
       /\ Assert(t.end, <<"the end reads as a token", c, bs>>)
       /\ Assert(t.lit = L - pos, <<"another ending is read", c, bs, t>>)
       /\ Assert(Len(bs) - (t.at - 1) \in EndPad(c, t), <<"spare bytes at the end", c, bs, t>>)
       /\ out' = out \o Slice(pos, t.lit)
       /\ size' = size + Len(bs) + (L - pos)
  /\ ended' = TRUE /\ UNCHANGED <<c, in, pos, wc, rc>>
Next == Token \/ End
Spec == Init /\ [][Next]_vars

Lockstep == rc = wc
Restored == out = SubSeq(in, 1, Len(out)) /\ (ended => Len(out) = L)
\* no token takes more than an index, a symbol and two wide fields
Size == size <= c.hdr + pos + (L + 1) * (c.size + 14)
CacheSize == Len(rc) = Len(InitCache(c))
=============================================================================
