------------------------------ MODULE Optional ------------------------------
(***************************************************************************)
(* A pool of optional and defaulted members.  A member is [set, c]: whether *)
(* a value is stored, and its content octets (the contents of its default   *)
(* when nothing is stored in a defaulted member).                            *)
(* Members: [k |-> "opt" | "def", ty, ids, d (contents of the default)].     *)
(***************************************************************************)
EXTENDS Ber

Start(x) == [set |-> FALSE, c |-> x.d]
Value(c) == [set |-> TRUE, c |-> c]
\* Assigning the default leaves nothing to be sent.
Assigned(x, c) == IF x.k = "def" /\ c = x.d THEN Start(x) ELSE Value(c)

\* Contents octets a member's type admits (canonical ones; see Types.tla for the others).
Admitted(x, c) == CASE x.ty = "int" -> Len(c) \in 1..8 [] x.ty = "bool" -> Len(c) = 1 [] OTHER -> TRUE

\* Decoding an element b into member x: is it this member's, and does it decode.
First(b) == ParseTLV(b)
Mine(ids, b) == First(b).ok /\ First(b).cls = ids[1].cls /\ First(b).tag = ids[1].tag
Good(x, ids, b) == LET u == Unwrap(ids, Primitive, b) IN u.ok /\ Admitted(x, u.content)

\* BOOLEAN contents other than zero all mean TRUE.
Norm(x, c) == IF x.ty = "bool" THEN IF c = <<0>> THEN <<0>> ELSE <<255>> ELSE c

Outcomes(xs, st, e) ==
  LET s == e.s
      x == xs[s]
      Put(v) == {[st EXCEPT ![s] = v]} IN
  CASE e.op = "set"   -> Put(IF e.how = "d" THEN Value(e.c) ELSE Assigned(x, e.c))
    [] e.op = "clear" -> Put(Start(x))
    [] e.op = "fresh" -> Put(Value(e.c))
    [] e.op = "copy"  -> Put(st[e.from])
    [] e.op = "move"  -> IF s = e.from THEN {[st EXCEPT ![s] = e.seen[s]]} ELSE {[st EXCEPT ![s] = st[e.from], ![e.from] = e.seen[e.from]]}
    [] e.op = "swap"  -> {[st EXCEPT ![s] = st[e.from], ![e.from] = st[s]]}
    [] e.op = "dec"   -> IF ~First(e.b).ok THEN Put(Start(x))
                         ELSE IF ~Mine(e.ids, e.b) THEN {st}
                         ELSE IF Good(x, e.ids, e.b) THEN Put(Value(Norm(x, Unwrap(e.ids, Primitive, e.b).content)))
                         ELSE Put(e.seen[s])
    [] e.op = "iter"  -> IF ~Mine(e.ids, e.b) THEN Put(Start(x))
                         ELSE IF Good(x, e.ids, e.b) THEN Put(Value(Norm(x, Unwrap(e.ids, Primitive, e.b).content)))
                         ELSE Put(e.seen[s])
    [] OTHER -> {st}

Succeeds(xs, e) ==
  LET x == xs[e.s] IN
  IF e.op = "dec" THEN ~First(e.b).ok \/ (Mine(e.ids, e.b) /\ Good(x, e.ids, e.b))
  ELSE ~Mine(e.ids, e.b) \/ Good(x, e.ids, e.b)

D(field, got, exp) == IF got = exp THEN <<>> ELSE <<<<field, exp>>>>
T(field, got)      == D(field, got, TRUE)

\* What is sent for a member: nothing, or one element with its identifier and contents. A stored value
\* equal to the default (after decoding it) may be sent or not.
Sent(x, ids, m, enc) ==
  \/ enc = <<>> /\ (~m.set \/ (x.k = "def" /\ m.c = x.d))
  \/ /\ enc # <<>> /\ m.set
     /\ LET u == Unwrap(ids, Primitive, enc) IN u.ok /\ Norm(x, u.content) = m.c /\ Size(ParseTLV(enc)) = Len(enc)
\* (An unusable value left by a refused decode is not judged by its contents.)
Reads(x, m, o) ==
  T("sent", Sent(x, x.ids, m, o.enc)) \o D("length", o.el, Len(o.enc)) \o T("short buffer refused", o.short) \o T("guard", o.g) \o T("views agree", o.same)
=============================================================================
