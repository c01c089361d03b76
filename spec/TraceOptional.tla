--------------------------- MODULE TraceOptional ---------------------------
(* Judges recorded sessions on a pool of optional and defaulted members (B10). *)
EXTENDS Optional, TraceBase
VARIABLES i, xs, bad
vars == <<i, xs, bad>>
IsNew(k) == Trace[k].op = "new"
Seen(e) == [k \in 1..Len(e.obs) |-> [set |-> e.obs[k].set, c |-> e.obs[k].c]]
AllRead(ys, p, e) == Flatten([k \in 1..Len(ys) |-> IF p # <<>> /\ p[k] = e.obs[k] THEN <<>>
                       ELSE LET r == Reads(ys[k], Seen(e)[k], e.obs[k]) IN IF r = <<>> THEN <<>> ELSE <<<<"member", k, r>>>>])
Full(e) == [seen |-> Seen(e)] @@ e
Extra(ys, s, e) ==
  CASE e.op \in {"dec", "iter"} -> D("ok", e.ok, Succeeds(ys, e)) \o (IF e.op = "iter" THEN D("advanced", e.adv, Mine(e.ids, e.b)) ELSE <<>>)
    \* (REAL values compare within a tolerance.)
    [] e.op \in {"cmpv", "cmp"} /\ ys[e.s].ty = "real" -> T("ne", e.eq # e.ne)
    [] e.op = "cmpv" -> LET q == (s[e.s].set \/ ys[e.s].k = "def") /\ s[e.s].c = e.c IN D("eq", e.eq, q) \o D("ne", e.ne, ~q)
    [] e.op = "cmp"  -> LET a == s[e.s]  b == s[e.from]  q == (ys[e.s].k = "def" \/ a.set = b.set) /\ a.c = b.c IN D("eq", e.eq, q) \o D("ne", e.ne, ~q)
    [] e.op = "empty" -> D("empty", e.eq, ~s[e.s].set)
    [] OTHER -> <<>>
Step(ys, p, s, e) ==
  (IF Seen(e) \in Outcomes(ys, s, Full(e)) THEN <<>> ELSE <<<<"state", CHOOSE v \in Outcomes(ys, s, Full(e)) : TRUE>>>>)
  \o AllRead(ys, p, e) \o Extra(ys, s, e)
Init == /\ i \in {k \in 1..N : IsNew(k)}
        /\ xs = Trace[i].slots
        /\ bad = D("start", Seen(Trace[i]), [k \in 1..Len(Trace[i].slots) |-> Start(Trace[i].slots[k])]) \o AllRead(Trace[i].slots, <<>>, Trace[i])
Next == /\ i < N /\ ~IsNew(i + 1)
        /\ i' = i + 1 /\ xs' = xs
        /\ bad' = Step(xs, Trace[i].obs, Seen(Trace[i]), Trace[i + 1])
Check == bad = <<>> \/ PrintT("REJECT " \o ToString(<<Trace[i].n, bad>>))
=============================================================================
