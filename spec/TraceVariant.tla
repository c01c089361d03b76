--------------------------- MODULE TraceVariant ---------------------------
(* Judges recorded sessions on a pool of variants (B09).                   *)
EXTENDS Variant, TraceBase
VARIABLES i, st, bad
vars == <<i, st, bad>>
IsNew(k) == Trace[k].op = "new"
AllRead(s, e) == Flatten([k \in 1..Len(s) |-> LET r == Reads(s[k], e.obs[k]) IN IF r = <<>> THEN <<>> ELSE <<<<"slot", k, r>>>>])
\* Of several states an operation may lead to, the one the code went to is adopted.
Fits(s, e) == \A k \in 1..Len(s) : e.obs[k].m = s[k].m /\ (s[k].m \/ e.obs[k].i = s[k].i)
After(s, e) == LET o == Outcomes(s, e) IN IF \E x \in o : Fits(x, e) THEN CHOOSE x \in o : Fits(x, e) ELSE CHOOSE x \in o : TRUE
Extra(s, e) ==
  CASE e.op = "mk"    -> D("source", e.src, TRUE)
    [] e.op = "throw" -> D("thrown", e.thrown, TRUE)
    [] e.op = "cmp"   -> LET a == s[e.s]  b == s[e.from] IN
                         D("cmp", e.cmp, <<Same(a, b), ~Same(a, b), Less(a, b), Less(b, a), ~Less(b, a), ~Less(a, b)>>)
    [] e.op = "rget"  -> D("got", e.got, s[e.s].v)
    [] e.op = "ded"   -> D("chosen", e.i, Chosen[e.what])
    [] OTHER -> <<>>
Judge(s, e) == AllRead(s, e) \o D("live", Live(s, e.base, e.live), TRUE) \o D("errors", e.errs, 0)
First(e) == [k \in 1..Len(e.obs) |-> Start]
Init == /\ i \in {k \in 1..N : IsNew(k)}
        /\ st = First(Trace[i])
        /\ bad = Judge(First(Trace[i]), Trace[i])
Next == /\ i < N /\ ~IsNew(i + 1)
        /\ i' = i + 1
        /\ st' = After(st, Trace[i + 1])
        /\ bad' = Judge(After(st, Trace[i + 1]), Trace[i + 1]) \o Extra(st, Trace[i + 1])
Check == bad = <<>> \/ PrintT("REJECT " \o ToString(<<Trace[i].n, bad>>))
=============================================================================
