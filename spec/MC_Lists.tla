------------------------------ MODULE MC_Lists ------------------------------
(* Two collections of one kind over every history of Depth operations, from   *)
(* starting lengths on both sides of the in-place capacity.                     *)
EXTENDS Lists, TLC, IOUtils
Depth == CASE IOEnv.FB_DEPTH = "1" -> 1 [] IOEnv.FB_DEPTH = "2" -> 2 [] OTHER -> 3
VARIABLES hist, st
vars == <<hist, st>>
A == <<1>>
B == <<127>>
El == [k |-> "int", ids |-> <<Ident(2, <<0>>)>>, in |-> <<>>]
X == [el |-> El, ids |-> <<Ident(0, <<16>>)>>]
Xs == <<X, X>>
Named(c) == IF c = A THEN 1 ELSE 127
Starts == {<<>>, <<A, B, A, B>>, <<B, A, A, B, B>>, <<A, B, A, A, B, A>>}
Received0 == {Sent(X, <<>>), Sent(X, <<B>>), Sent(X, <<A, A, B, B, A, B>>), <<48, 5, 128, 1, 1, 128, 0>>, <<48, 1>>, <<49, 0>>, <<48, 4, 128, 2, 0, 1>>}
Pairs == {<<1, 2>>, <<2, 1>>, <<1, 1>>}
Assigned(s, cs) == [op |-> "assign", s |-> s, cs |-> cs, how |-> 0]
Ops == {Assigned(1, cs) : cs \in Starts}
  \cup {[op |-> "push", s |-> 1, c |-> B, how |-> h] : h \in 0..4}
  \cup {[op |-> "insert", s |-> 1, k |-> k, c |-> A, how |-> 0] : k \in {1, 3}}
  \cup {[op |-> "put", s |-> 1, k |-> k, c |-> B, how |-> 0] : k \in {1, 4}}
  \cup {[op |-> "erase", s |-> 1, k |-> p[1], m |-> p[2]] : p \in {<<1, 1>>, <<2, 4>>, <<6, 6>>}}
  \cup {[op |-> "pop", s |-> 1]}
  \cup {[op |-> "resize", s |-> 1, m |-> m, c |-> B, how |-> 1] : m \in {0, 5, 6}}
  \cup {[op |-> "fill", s |-> 1, m |-> m, c |-> A, how |-> 0] : m \in {5, 6}}
  \cup {[op |-> "clear", s |-> 1, how |-> h] : h \in 0..3}
  \cup {[op |-> o, s |-> p[1], from |-> p[2], how |-> h] : o \in {"copy", "move"}, p \in Pairs, h \in {0, 1}}
  \cup {[op |-> o, s |-> p[1], from |-> p[2]] : o \in {"swap", "cmp"}, p \in Pairs}
  \cup {[op |-> "dec", s |-> 1, b |-> b, how |-> 0] : b \in Received0}
Allowed(o) == Enabled(st, o) /\ (o.op \in {"copy", "move"} => (o.s = o.from => o.how = 0))
\* (What a moved-from collection or one whose decoding was refused is left with: here, as it was.)
Event(o) == [seen |-> st] @@ o
Init == \E a \in Starts, b \in {<<>>, <<B, A, A, B, B>>} : hist = <<Assigned(1, a), Assigned(2, b)>> /\ st = <<a, b>>
Next == Len(hist) < Depth + 2 /\ \E o \in Ops : Allowed(o) /\ hist' = Append(hist, o) /\ st' \in Outcomes(Xs, st, Event(o))
\* What is sent is received as it was, by a collection holding anything.
Sound == \A k \in 1..2 : Received(X, Sent(X, st[k])) = Yes(st[k])
Frame == [][LET o == hist'[Len(hist')] IN \A k \in 1..2 : st'[k] # st[k] => k = o.s \/ (o.op \in {"move", "swap"} /\ k = o.from)]_vars
Lengths == [][LET o == hist'[Len(hist')] IN
   /\ o.op \in {"push", "insert"} => Len(st'[1]) = Len(st[1]) + 1
   /\ o.op = "erase" => Len(st'[1]) = Len(st[1]) - (o.m - o.k + 1)
   /\ o.op \in {"resize", "fill"} => Len(st'[1]) = o.m]_vars
Emit == Len(hist) < Depth + 2 \/ PrintT("HIST " \o ToString(hist))
=============================================================================
