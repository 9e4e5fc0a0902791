---------------------------- MODULE HrleToolTrace ----------------------------
(* Runs of the real tool against HrleTool.  Every event is one run: the arguments, the exit   *)
(* status, the report, which codec functions it called (with the last size and result), at     *)
(* which level, and which fault was put into which codec.                                       *)
EXTENDS HrleTool, TLC, TLCExt, IOUtils, Json

Prop    == IOEnv.HRK_PROP
Events  == ndJsonDeserialize(IOEnv.HRK_EVENTS)
M       == JsonDeserialize(IOEnv.HRK_MACHINE)
Machine == {v \in {Levels[i] : i \in 1..8} : \E k \in DOMAIN M : M[k] = v}
NEv     == Len(Events)
Range(q) == {q[k] : k \in DOMAIN q}

VARIABLES l, rej, cnt
vars == <<l, rej, cnt>>

Used(e) == {e.used[k].f : k \in DOMAIN e.used}
Of(e, f) == LET k == CHOOSE k \in DOMAIN e.used : e.used[k].f = f IN e.used[k]
Said(e) == {e.rep[k].l : k \in DOMAIN e.rep}
Rep(e, lab) == LET k == CHOOSE k \in DOMAIN e.rep : e.rep[k].l = lab IN e.rep[k]
Abs(x) == IF x < 0 THEN -x ELSE x
\* the ratio shown (in hundredths of a per cent) is that of n bytes becoming m
Shows(r, m, n) == 2 * Abs(r * n - m * 10000) <= n + 2

\* C14: the codecs asked for, all of them, no others, each by its own functions, at the level asked for
Selection(e, s) ==
  LET want == Chosen(s)
      must == want \ Open(s)
      labs(K) == {ToolCodecs[k].label : k \in K}
      ran == {k \in want : ToolCodecs[k].label \in Said(e)}
  IN (IF e.exit = 0 THEN {} ELSE {"ended with an error"})
     \cup {"not run: " \o x : x \in labs(must) \ Said(e)}
     \cup {"not asked for: " \o x : x \in Said(e) \ labs(want)}
     \cup {"called without being asked for: " \o f : f \in Used(e) \ Funcs(want)}
     \cup {"not called: " \o f : f \in {g \in Funcs(ran) : g \notin Used(e) /\ ~(\E k \in ran : ToolCodecs[k].dec = g /\ Excused(s, ToolCodecs[k].comp))}}
     \cup {"fewer runs than asked for: " \o f : f \in {g \in Used(e) \cap Funcs(ran) : Of(e, g).n < s.runs /\ Of(e, g).r # 0}}
     \cup {"another file size: " \o f : f \in {g \in Used(e) : (\E k \in ran : ToolCodecs[k].comp = g) /\ Of(e, g).i # e.n}}
     \cup {"ratio of another codec: " \o ToolCodecs[k].label :
            k \in {j \in ran : LET c == ToolCodecs[j] IN
                     IF c.comp = "" THEN ~Shows(Rep(e, c.label).r, e.n, e.n)
                     ELSE c.comp \in Used(e) /\ Of(e, c.comp).r # 0 /\ ~Shows(Rep(e, c.label).r, Of(e, c.comp).r, e.n)}}
     \cup \* (without a restriction, functions that do not ask for the machine's level leave it undetermined)
     (IF e.calls > 0 /\ Range(e.level) # s.level /\ (s.cut \/ Range(e.level) # {}) THEN {"runs at another level"} ELSE {})
Refused(e) == (IF e.exit = 0 THEN {"accepted"} ELSE {}) \cup (IF e.calls > 0 \/ e.rep # <<>> THEN {"codecs were run although the arguments are refused"} ELSE {})

\* C15: the verdict.  Which results of the run count as failures:
Faulty(e, s) ==
  \/ \E f \in Used(e) : Of(e, f).r = 0 /\ ~Excused(s, f)
  \/ e.fired = 1 /\ CASE e.fk = "zero" -> FALSE                                   \* seen as a result of 0 above
                      [] e.fk = "none" -> TRUE
                      [] e.fk = "short" -> e.fa < e.n
                      [] e.fk = "size" -> TRUE
                      [] OTHER -> TRUE
Verdict(e, s) ==
  IF s.fuzz THEN
    IF Faulty(e, s) THEN (IF e.exit \in {0, 77} THEN {"the fuzzer goes on after a failure"} ELSE IF e.after > 0 THEN {"the fuzzer goes on after a failure"} ELSE {})
    ELSE IF e.exit = 77 THEN {} ELSE {"the fuzzer fails although nothing went wrong"}
  ELSE IF e.file # "ok" THEN (IF e.exit = 0 THEN {"success without having read the file"} ELSE {})
  ELSE IF s.test THEN
    IF Faulty(e, s) THEN (IF e.exit = 0 THEN {"success although a codec failed"} ELSE {})
    ELSE (IF e.exit = 0 THEN {} ELSE {"failure although every codec succeeded"})
  ELSE \* a benchmark: goes on, but says so
    (IF e.exit = 0 THEN {} ELSE {"ended with an error"})
    \cup (IF Faulty(e, s) /\ e.fk = "flip" /\ e.invalid = 0 THEN {"no word about wrong data"} ELSE {})
    \cup (IF Faulty(e, s) /\ e.fk = "zero" /\ (\A k \in DOMAIN e.rep : e.rep[k].bad = 0) THEN {"no word about a failed codec"} ELSE {})
    \cup (IF ~Faulty(e, s) /\ e.invalid = 1 THEN {"complains although every codec succeeded"} ELSE {})

Judge(e) ==
  UNION {IF s.bad THEN Refused(e) ELSE IF Prop = "C14" THEN Selection(e, s) ELSE Verdict(e, s) : s \in {Parse(e.args, Machine)}}

Init == l = 1 /\ rej = 0 /\ cnt = 0
Step(e, w) ==
  /\ \A x \in w : PrintT(<<"REJECT", Prop, e.id, "tool", x>>)
  /\ rej' = rej + (IF w = {} THEN 0 ELSE 1) /\ cnt' = cnt + e.calls /\ l' = l + 1
Next == l <= NEv /\ \E w \in {Judge(Events[l])} : Step(Events[l], w)
Finish == l > NEv => PrintT(<<"CONSUMED", NEv, rej, 0, cnt, 0>>)
View == l
=============================================================================
