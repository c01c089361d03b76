------------------------------ MODULE Variant ------------------------------
(***************************************************************************)
(* A pool of variants (DynamicVariant, and Choice in either storage).  The  *)
(* state of one is [i, v, m]: the alternative held (-1: none, after a       *)
(* constructor threw), its value, and whether it was moved from (then       *)
(* neither can be relied on until it is assigned).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Start == [i |-> 0, v |-> 0, m |-> FALSE]
None  == [i |-> -1, v |-> 0, m |-> FALSE]
Gone(x) == [x EXCEPT !.m = TRUE]
\* Whether the value of a slot may be read.
Readable(x) == ~x.m /\ x.i # -1

\* What the initializer_list constructor of alternative 1 makes of {v, 1}.
ListValue(v) == v + 1

Outcomes(st, e) ==
  LET s == e.s
      Put(x) == {[st EXCEPT ![s] = x]} IN
  CASE e.op = "mk"    -> Put([i |-> e.alt, v |-> IF e.how \in {"il", "jl", "el", "fl"} THEN ListValue(e.v) ELSE e.v, m |-> FALSE])
    [] e.op = "throw" -> {st, [st EXCEPT ![s] = None]}
    [] e.op = "alias" -> {st}
    [] e.op = "poke"  -> Put([st[s] EXCEPT !.v = e.v])
    [] e.op = "copy"  -> Put(st[e.from])
    [] e.op = "move"  -> IF s = e.from THEN {st, [st EXCEPT ![s] = Gone(@)]} ELSE {[st EXCEPT ![s] = st[e.from], ![e.from] = Gone(@)]}
    [] e.op = "swap"  -> {[st EXCEPT ![s] = st[e.from], ![e.from] = st[s]]}
    [] OTHER -> {st}

\* Order: by alternative, then by value.
Less(a, b) == a.i < b.i \/ (a.i = b.i /\ a.v < b.v)
Same(a, b) == a.i = b.i /\ a.v = b.v

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
D(field, got, exp) == IF got = exp THEN <<>> ELSE <<<<field, exp>>>>

\* All that can be read from a variant: by type, by index, through pointers and by visiting.
Reads(x, o) ==
  D("moved", o.m, x.m) \o
  (IF x.m THEN <<>>
   ELSE D("index", o.i, x.i) \o D("none", o.none, x.i = -1)
        \o D("holds", o.holds, [k \in 1..3 |-> x.i = k - 1])
        \o (IF x.i = -1 THEN <<>> ELSE
            D("visit", o.visit, <<x.i, x.v>>)
            \o D("get", o.get, [k \in 1..6 |-> IF (k - 1) \div 2 = x.i THEN x.v ELSE -1000])
            \o D("getif", o.getif, [k \in 1..6 |-> IF (k - 1) \div 2 = x.i THEN x.v ELSE -1000]))
        \o D("null", o.null, TRUE))

\* Objects of alternative types that are alive: exactly one per variant that has a value.
Live(st, n, l) ==
  LET sure == Cardinality({k \in DOMAIN st : Readable(st[k])})
      maybe == Cardinality({k \in DOMAIN st : st[k].m}) IN l - n >= sure /\ l - n <= sure + maybe

\* Conversions to a variant of std::string, int and char: the alternative overload resolution chooses.
Chosen == [string |-> 0, literal |-> 0, int |-> 1, char |-> 2, cint |-> 1, cstring |-> 0]
=============================================================================
