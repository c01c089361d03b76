------------------------------- MODULE Lists -------------------------------
(***************************************************************************)
(* A pool of SEQUENCE OF and SET OF collections, as the values of programs  *)
(* which grow, shrink, copy, move, exchange, encode and decode them.  A      *)
(* collection is the sequence of its elements; an element is its contents     *)
(* octets, or for a collection of collections of INTEGER the sequence of      *)
(* theirs.                                                                     *)
(* Pool entries: [el |-> [k |-> "int" | "str" | "ints", ids, in], ids].        *)
(***************************************************************************)
EXTENDS Ber

\* An INTEGER without needless leading octets.
RECURSIVE Trim(_)
Trim(c) == IF Len(c) > 1 /\ ((c[1] = 0 /\ c[2] < 128) \/ (c[1] = 255 /\ c[2] >= 128)) THEN Trim(Tail(c)) ELSE c

No == [ok |-> FALSE, v |-> <<>>]
Yes(v) == [ok |-> TRUE, v |-> v]
One(k, ids, b) ==       \* a primitive element
  LET u == Unwrap(ids, Primitive, b) IN
  IF ~u.ok THEN No ELSE IF k = "int" THEN IF Len(u.content) \in 1..8 THEN Yes(Trim(u.content)) ELSE No ELSE Yes(u.content)
All(rs) == IF \A k \in 1..Len(rs) : rs[k].ok THEN Yes(Eager([k \in 1..Len(rs) |-> rs[k].v])) ELSE No
Ints(ids, in, b) == LET u == Unwrap(ids, Constructed, b) IN
  IF ~u.ok THEN No ELSE LET es == Elements(u.content) IN All(Eager([k \in 1..Len(es) |-> One("int", in, es[k])]))
OneOf(e, b) == IF e.k = "ints" THEN Ints(e.ids, e.in, b) ELSE One(e.k, e.ids, b)

\* What octets b mean to a collection of kind x.
Received(x, b) == LET u == Unwrap(x.ids, Constructed, b) IN
  IF ~u.ok THEN No ELSE LET es == Elements(u.content) IN All(Eager([k \in 1..Len(es) |-> OneOf(x.el, es[k])]))

\* What is sent for the elements l.
Sent1(k, ids, c) == Wrap(ids, Primitive, c)
SentOf(e, c) == IF e.k = "ints" THEN Wrap(e.ids, Constructed, Flatten([k \in 1..Len(c) |-> Sent1("int", e.in, c[k])])) ELSE Sent1(e.k, e.ids, c)
Sent(x, l) == Wrap(x.ids, Constructed, Flatten([k \in 1..Len(l) |-> SentOf(x.el, l[k])]))

Times(n, c) == [k \in 1..n |-> c] \o <<>>
Without(l, from, to) == SubSeq(l, 1, from - 1) \o SubSeq(l, to + 1, Len(l))      \* the elements from..to left out

Enabled(st, e) ==
  CASE e.op = "insert" -> e.k <= Len(st[e.s]) + 1
    [] e.op = "put"    -> e.k <= Len(st[e.s])
    [] e.op = "erase"  -> e.k <= e.m /\ e.m <= Len(st[e.s])
    [] e.op = "pop"    -> st[e.s] # <<>>
    [] OTHER -> TRUE

Outcomes(xs, st, e) ==
  LET s == e.s
      l == st[s]
      Put(v) == {[st EXCEPT ![s] = v]} IN
  CASE e.op = "push"   -> Put(Append(l, e.c))
    [] e.op = "insert" -> Put(SubSeq(l, 1, e.k - 1) \o <<e.c>> \o SubSeq(l, e.k, Len(l)))
    [] e.op = "put"    -> Put([l EXCEPT ![e.k] = e.c])
    [] e.op = "erase"  -> Put(Without(l, e.k, e.m))
    [] e.op = "pop"    -> Put(SubSeq(l, 1, Len(l) - 1))
    [] e.op = "resize" -> Put(IF e.m <= Len(l) THEN SubSeq(l, 1, e.m) ELSE l \o Times(e.m - Len(l), e.c))
    [] e.op = "fill"   -> Put(Times(e.m, e.c))
    [] e.op = "clear"  -> Put(<<>>)
    [] e.op = "assign" -> Put(e.cs)
    [] e.op = "copy"   -> Put(st[e.from])
    \* A collection moved from may hold anything.
    [] e.op = "move"   -> IF s = e.from THEN Put(e.seen[s]) ELSE {[st EXCEPT ![s] = st[e.from], ![e.from] = e.seen[e.from]]}
    [] e.op = "swap"   -> {[st EXCEPT ![s] = st[e.from], ![e.from] = st[s]]}
    \* A refused decoding may leave anything, a successful one exactly what was sent.
    [] e.op = "dec"    -> LET r == Received(xs[s], e.b) IN Put(IF r.ok THEN r.v ELSE e.seen[s])
    [] OTHER -> {st}

\* Elements received in another spelling may be sent on in it.
Means(x, l, b) == b = Sent(x, l) \/ (Received(x, b) = Yes(l) /\ Size(ParseTLV(b)) = Len(b))

D(field, got, exp) == IF got = exp THEN <<>> ELSE <<<<field, exp>>>>
T(field, got)      == D(field, got, TRUE)
Reads(x, l, o) ==
  (IF Means(x, l, o.enc) THEN <<>> ELSE <<<<"sent", Sent(x, l)>>>>) \o D("length", o.len, Len(o.enc)) \o T("short buffer refused", o.short) \o T("guard", o.g) \o T("views agree", o.same)
=============================================================================
