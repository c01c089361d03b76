------------------------------ MODULE MC_Optional ------------------------------
(* Two members of one type (octet strings; an optional and a defaulted kind)  *)
(* over every history of Depth operations.                                     *)
EXTENDS Optional, TLC, IOUtils
Kind == IOEnv.FB_KIND
Depth == CASE IOEnv.FB_DEPTH = "1" -> 1 [] IOEnv.FB_DEPTH = "2" -> 2 [] OTHER -> 3
VARIABLES hist, st
vars == <<hist, st>>
Abc == <<97, 98, 99>>
Own == <<Ident(2, <<0>>)>>
Xs == [k \in 1..2 |-> [k |-> Kind, ty |-> "str", ids |-> Own, d |-> IF Kind = "def" THEN Abc ELSE <<>>]]
Values == {<<>>, Abc, <<120>>}
Named(c) == CASE c = <<>> -> 0 [] c = Abc -> 1 [] OTHER -> 2
Elements0 == {<<>>, Wrap(Own, Primitive, Abc), Wrap(Own, Primitive, <<116>>), Wrap(Own, Constructed, Abc), <<4, 1, 9>>, <<128, 5, 1>>, <<65, 0>>, <<128, 129, 1, 7>>}
Hows == IF Kind = "opt" THEN {"a", "m", "v", "e", "c", "C"} ELSE {"a", "v", "c", "C"}
Pairs == {<<1, 2>>, <<2, 1>>, <<1, 1>>}
Ops == {[op |-> "set", s |-> 1, how |-> h, c |-> c] : h \in Hows, c \in Values}
  \cup {[op |-> "set", s |-> 2, how |-> "v", c |-> c] : c \in Values}
  \cup (IF Kind = "opt" THEN {[op |-> "set", s |-> 1, how |-> "d", c |-> c] : c \in Values} ELSE {})
  \cup {[op |-> "clear", s |-> 1, how |-> h] : h \in 0..3} \cup {[op |-> "fresh", s |-> 1, c |-> <<>>]}
  \cup {[op |-> o, s |-> p[1], from |-> p[2], how |-> h] : o \in {"copy", "move"}, p \in Pairs, h \in {0, 1}}
  \cup {[op |-> o, s |-> p[1], from |-> p[2]] : o \in {"swap", "cmp"}, p \in Pairs}
  \cup {[op |-> o, s |-> 1, b |-> b, ids |-> Own] : o \in {"dec", "iter"}, b \in Elements0}
  \cup {[op |-> "cmpv", s |-> 1, c |-> c] : c \in Values}
Enabled(o) == CASE o.op = "set" -> o.how = "d" => st[o.s].set [] o.op \in {"copy", "move"} -> o.s = o.from => o.how = 0 [] OTHER -> TRUE
\* (The state a moved-from or refused member is left in: here, as it was.)
Event(o) == [seen |-> st] @@ o
Replayed(o) == IF o.op \in {"set", "cmpv"} THEN [n |-> Named(o.c)] @@ o ELSE o
Init == hist = <<>> /\ st = [k \in 1..2 |-> Start(Xs[k])]
Next == Len(hist) < Depth /\ \E o \in Ops : Enabled(o) /\ hist' = Append(hist, Replayed(o)) /\ st' \in Outcomes(Xs, st, Event(o))
\* A member with nothing stored reads as its default; what is sent for a member is received as what it was.
Sound == \A k \in 1..2 :
  /\ ~st[k].set => st[k].c = Xs[k].d
  /\ st[k].set => LET w == Wrap(Own, Primitive, st[k].c) IN
       Sent(Xs[k], Own, st[k], w) /\ Outcomes(Xs, st, [op |-> "dec", s |-> k, b |-> w, ids |-> Own, seen |-> st]) = {st}
  /\ ~st[k].set => Sent(Xs[k], Own, st[k], <<>>) /\ Outcomes(Xs, st, [op |-> "dec", s |-> k, b |-> <<>>, ids |-> Own, seen |-> st]) = {st}
\* Only decoding can store the default explicitly.
Elided == [][LET o == hist'[Len(hist')] IN (Kind = "def" /\ o.op = "set") => (st'[o.s].set <=> o.c # Abc)]_vars
Frame == [][LET o == hist'[Len(hist')] IN \A k \in 1..2 : st'[k] # st[k] => k = o.s \/ (o.op \in {"move", "swap"} /\ k = o.from)]_vars
Emit == Len(hist) < Depth \/ PrintT("HIST " \o ToString(hist))
=============================================================================
