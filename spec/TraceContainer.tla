--------------------------- MODULE TraceContainer ---------------------------
(* Judges recorded sessions on a pool of containers (B08).                 *)
EXTENDS Container, TraceBase

VARIABLES i, xs, bad
vars == <<i, xs, bad>>

IsNew(k) == Trace[k].op = "new"
Seen(e) == [k \in 1..Len(e.obs) |-> e.obs[k].ber]
\* (An observation equal to the one before, of the same octets, need not be judged again.)
AllRead(ys, p, e) == Flatten([k \in 1..Len(ys) |-> IF p # <<>> /\ p[k] = e.obs[k] THEN <<>> ELSE LET r == Reads(ys[k], e.obs[k].ber, e.obs[k]) IN IF r = <<>> THEN <<>> ELSE <<<<"slot", k, r>>>>])

Extra(ys, s0, e) ==
  CASE e.op = "dec"   -> D("ok", e.ok, Accepts(ys[e.s], e.b))
    [] e.op = "child" -> D("ok", e.ok, Accepts(ys[e.s], ContentOf(ys[e.s], s0[e.s])))
    [] e.op = "self"  -> D("ok", e.ok, s0[e.s] # <<>>)
    [] e.op = "eq"    -> LET q == ContentOf(ys[e.s], s0[e.s]) = ContentOf(ys[e.from], s0[e.from]) IN D("eq", <<e.eq, e.ne>>, <<q, ~q>>)
    [] e.op = "enc"   -> LET w == s0[e.s]  fits == w # <<>> /\ Len(w) <= e.buf IN
         (IF w = <<>> THEN D("r", e.r, 0) ELSE D("ok", e.ok, fits)) \o D("out", e.out, IF fits THEN w ELSE <<>>) \o (IF fits THEN D("r", e.r, Len(w)) ELSE <<>>) \o T("guard", e.guard)
    [] OTHER -> <<>>

Step(ys, p, s0, e) ==
  (IF Allowed(ys, s0, e, Seen(e)) THEN <<>>
   ELSE LET w == CHOOSE v \in Outcomes(ys, s0, e) : TRUE IN <<<<"state", w>>>>)
  \o AllRead(ys, p, e) \o Extra(ys, s0, e)

Init == /\ i \in {k \in 1..N : IsNew(k)}
        /\ xs = Trace[i].slots
        /\ bad = D("fresh", Seen(Trace[i]), [k \in 1..Len(Trace[i].slots) |-> Fresh(Trace[i].slots[k])]) \o AllRead(Trace[i].slots, <<>>, Trace[i])
Next == /\ i < N /\ ~IsNew(i + 1)
        /\ i' = i + 1 /\ xs' = xs
        /\ bad' = Step(xs, Trace[i].obs, Seen(Trace[i]), Trace[i + 1])
Check == bad = <<>> \/ PrintT("REJECT " \o ToString(<<Trace[i].n, bad>>))
=============================================================================
