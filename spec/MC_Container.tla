----------------------------- MODULE MC_Container -----------------------------
(***************************************************************************)
(* Three containers of one kind (the third under an explicit wrapper) over  *)
(* every history of Depth operations; lengths lie around the sizes at which *)
(* the header grows and at which storage leaves the object.  Histories are  *)
(* replayed into the code (TLC -dump).                                      *)
(***************************************************************************)
EXTENDS Container, TLC, IOUtils
Kind  == IOEnv.FB_KIND
Depth == CASE IOEnv.FB_DEPTH = "1" -> 1 [] IOEnv.FB_DEPTH = "2" -> 2 [] OTHER -> 3
VARIABLES hist, st
vars == <<hist, st>>

Own  == <<Ident(Universal, <<4>>)>>
Expl == <<Ident(Context, <<1>>), Ident(Universal, <<4>>)>>
Xs == [k \in 1..3 |-> [k |-> Kind, cap |-> IF Kind = "small" THEN 20 ELSE 0, ids |-> IF Kind = "raw" THEN <<>> ELSE IF k = 3 THEN Expl ELSE Own]]

Pat(n, seed) == [j \in 1..n |-> (seed + 7 * j) % 256]
Lens == IF Kind = "small" THEN {0, 1, 20} ELSE {0, 5, 98, 128, 260}

SetOps == {[op |-> "set", s |-> s, n |-> n] : s \in {1, 3}, n \in Lens}
ResizeOps == {[op |-> "resize", s |-> s, m |-> n] : s \in {1, 3}, n \in Lens}
DecOps == {[op |-> "dec", s |-> s, n |-> n, how |-> h] : s \in {1, 3}, n \in (IF Kind = "small" THEN {3, 21} ELSE {3, 97, 129}), h \in {"good", "cut", "tag"}}
PairOps == {[op |-> o, s |-> p[1], from |-> p[2]] : o \in {"copy", "move", "swap"}, p \in {<<1, 2>>, <<2, 1>>, <<1, 1>>}}
OtherOps == {[op |-> "self", s |-> s] : s \in {1, 3}} \cup {[op |-> "sub", s |-> s, off |-> 1, m |-> 2] : s \in {1, 3}}
  \cup {[op |-> "write", s |-> s, p |-> 1] : s \in {1, 3}}
  \cup (IF Kind = "raw" THEN {[op |-> "child", s |-> 1], [op |-> "hset", s |-> 1, n |-> 40, tag |-> <<3, 104>>], [op |-> "nest", s |-> 1, n |-> 120]} ELSE {[op |-> "cross", s |-> p[1], from |-> p[2]] : p \in {<<1, 3>>, <<3, 2>>}})
Ops == SetOps \cup ResizeOps \cup DecOps \cup PairOps \cup OtherOps

Framed(s, o) ==
  LET w == Made(Xs[s], Pat(o.n, 9)) IN
  CASE o.how = "good" -> w
    [] o.how = "cut"  -> SubSeq(w, 1, Len(w) - 1)
    [] OTHER          -> <<(w[1] + 64) % 256>> \o Tail(w)

\* Operations that a state allows (a position must exist), as Container's events.
Clen(s) == Len(ContentOf(Xs[s], st[s]))
Enabled(o) == CASE o.op = "write" -> Clen(o.s) > o.p [] o.op = "sub" -> Clen(o.s) >= o.off + o.m
                [] o.op = "copy" \/ o.op = "swap" -> TRUE [] OTHER -> TRUE
Event(o) ==
  CASE o.op = "set"   -> [op |-> "set", s |-> o.s, b |-> Pat(o.n, 1)]
    [] o.op = "hset"  -> [op |-> "hset", s |-> o.s, cls |-> 2, cons |-> 0, tag |-> o.tag, b |-> Pat(o.n, 2)]
    [] o.op = "nest"  -> [op |-> "set", s |-> o.s, b |-> RawElement(Pat(o.n, 3))]
    [] o.op = "dec"   -> [op |-> "dec", s |-> o.s, b |-> Framed(o.s, o)]
    [] o.op = "write" -> [op |-> "write", s |-> o.s, p |-> o.p, v |-> 255]
    [] OTHER -> o

Init == hist = <<>> /\ st = [k \in 1..3 |-> Fresh(Xs[k])]
Next == Len(hist) < Depth /\ \E o \in Ops : Enabled(o) /\ hist' = Append(hist, o) /\ st' \in Outcomes(Xs, st, Event(o))

\* Every object holds one whole element of its own identifier (only a raw one may be invalid), so it can always be sent and received.
Sound == \A k \in 1..3 :
  \/ Kind = "raw" /\ st[k] = <<>>
  \/ /\ ParseTLV(st[k]).ok /\ Size(ParseTLV(st[k])) = Len(st[k])
     /\ Accepts(Xs[k], st[k])
     /\ ContentOf(Xs[k], CHOOSE w \in Stored(Xs[k], st[k]) : TRUE) = ContentOf(Xs[k], st[k])
\* Nothing but the objects an operation names ever changes, and a sent element is what was stored.
Frame == [][LET o == hist'[Len(hist')] IN
            \A k \in 1..3 : st'[k] # st[k] => k = o.s \/ (o.op \in {"move", "swap"} /\ k = o.from)]_vars
LastSet == hist # <<>> =>
  LET o == hist[Len(hist)] IN
  /\ o.op = "set" => ContentOf(Xs[o.s], st[o.s]) = Pat(o.n, 1)
  /\ o.op = "resize" => Clen(o.s) = o.m
  /\ (o.op = "dec" /\ o.how = "good" /\ ~(Kind = "small" /\ o.n > 20)) => ContentOf(Xs[o.s], st[o.s]) = Pat(o.n, 9)
Emit == Len(hist) < Depth \/ PrintT("HIST " \o ToString(hist))
=============================================================================
