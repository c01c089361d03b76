---------------------------- MODULE TraceLists ----------------------------
(* Judges recorded sessions on a pool of collections (G04). *)
EXTENDS Lists, TraceBase
VARIABLES i, xs, bad
vars == <<i, xs, bad>>
IsNew(k) == Trace[k].op = "new"
Seen(e) == [k \in 1..Len(e.obs) |-> e.obs[k].els]
AllRead(ys, p, e) == Flatten([k \in 1..Len(ys) |-> IF p # <<>> /\ p[k] = e.obs[k] THEN <<>>
                       ELSE LET r == Reads(ys[k], e.obs[k].els, e.obs[k]) IN IF r = <<>> THEN <<>> ELSE <<<<"collection", k, r>>>>])
Full(e) == [seen |-> Seen(e)] @@ e
Extra(ys, s, e) ==
  CASE e.op = "dec" -> D("ok", e.ok, Received(ys[e.s], e.b).ok)
    [] e.op = "cmp" -> LET q == s[e.s] = s[e.from] IN D("eq", e.eq, q) \o D("ne", e.ne, ~q)
    [] OTHER -> <<>>
Step(ys, p, s, e) ==
  (IF Seen(e) \in Outcomes(ys, s, Full(e)) THEN <<>> ELSE <<<<"elements", CHOOSE v \in Outcomes(ys, s, Full(e)) : TRUE>>>>)
  \o AllRead(ys, p, e) \o Extra(ys, s, e)
Init == /\ i \in {k \in 1..N : IsNew(k)}
        /\ xs = Trace[i].slots
        /\ bad = D("start", Seen(Trace[i]), [k \in 1..Len(Trace[i].slots) |-> <<>>]) \o AllRead(Trace[i].slots, <<>>, Trace[i])
Next == /\ i < N /\ ~IsNew(i + 1)
        /\ i' = i + 1 /\ xs' = xs
        /\ bad' = Step(xs, Trace[i].obs, Seen(Trace[i]), Trace[i + 1])
Check == bad = <<>> \/ PrintT("REJECT " \o ToString(<<Trace[i].n, bad>>))
=============================================================================
