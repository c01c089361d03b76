------------------------------ MODULE MC_Variant ------------------------------
(* Two variants over every history of Depth operations.                     *)
EXTENDS Variant, IOUtils
Depth == CASE IOEnv.FB_DEPTH = "1" -> 1 [] IOEnv.FB_DEPTH = "2" -> 2 [] OTHER -> 3
VARIABLES hist, st
vars == <<hist, st>>
Pairs == {<<1, 2>>, <<2, 1>>, <<1, 1>>}
Ops == {[op |-> "mk", s |-> 1, how |-> h, alt |-> a, v |-> 5] : h \in {"cl", "cc", "cr", "it", "ii", "al", "ac", "ar", "et", "ei"}, a \in 0..2}
  \cup {[op |-> "mk", s |-> 1, how |-> h, alt |-> 1, v |-> 5] : h \in {"il", "jl", "el", "fl"}}
  \cup {[op |-> "mk", s |-> 2, how |-> "ar", alt |-> a, v |-> 7] : a \in 0..2}
  \cup {[op |-> "throw", s |-> 1, how |-> h] : h \in {"et", "ei", "a"}}
  \cup {[op |-> "alias", s |-> 1], [op |-> "poke", s |-> 1, v |-> 9], [op |-> "poke", s |-> 2, v |-> 9]}
  \cup {[op |-> o, s |-> p[1], from |-> p[2], how |-> h] : o \in {"copy", "move", "swap"}, p \in Pairs, h \in {0, 1}}
  \cup {[op |-> "cmp", s |-> p[1], from |-> p[2]] : p \in Pairs}
Enabled(o) == CASE o.op \in {"alias", "poke"} -> Readable(st[o.s])
                [] o.op = "cmp" -> Readable(st[o.s]) /\ Readable(st[o.from])
                [] o.op \in {"copy", "move", "swap"} -> Readable(st[o.from]) /\ (o.s = o.from => o.how = 0)
                [] OTHER -> TRUE
Init == hist = <<>> /\ st = <<Start, Start>>
Next == Len(hist) < Depth /\ \E o \in Ops : Enabled(o) /\ hist' = Append(hist, o) /\ st' \in Outcomes(st, o)
TypeOK == \A k \in 1..2 : st[k].i \in -1..2
\* The order is total and consistent with equality.
Order == LET a == st[1]  b == st[2] IN Cardinality({x \in {1, 2, 3} : CASE x = 1 -> Same(a, b) [] x = 2 -> Less(a, b) [] OTHER -> Less(b, a)}) = 1
\* An operation changes no variant it does not name; only a throwing constructor can leave one without a value.
Frame == [][LET o == hist'[Len(hist')] IN \A k \in 1..2 : st'[k] # st[k] => k = o.s \/ (o.op \in {"move", "swap"} /\ k = o.from)]_vars
NoneOnlyByThrow == [][LET o == hist'[Len(hist')] IN (\E k \in 1..2 : st'[k].i = -1) => o.op = "throw" \/ \E k \in 1..2 : st[k].i = -1]_vars
Emit == Len(hist) < Depth \/ PrintT("HIST " \o ToString(hist))
=============================================================================
