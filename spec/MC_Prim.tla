------------------------------- MODULE MC_Prim -------------------------------
(***************************************************************************)
(* The pool of Prim.tla with two objects under the type's own identifier   *)
(* and one under an explicit wrapper, over every history of Depth          *)
(* operations from a small alphabet that has every kind of operation.      *)
(* The histories are replayed into the code (TLC -dump).                   *)
(***************************************************************************)
EXTENDS Prim, TLC, IOUtils
Ty == IOEnv.FB_TY
Depth == CASE IOEnv.FB_DEPTH = "1" -> 1 [] IOEnv.FB_DEPTH = "2" -> 2 [] OTHER -> 3
VARIABLES hist, st
vars == <<hist, st>>

UTag == CASE Ty = "bool" -> 1 [] Ty = "int" -> 2 [] Ty = "null" -> 5 [] Ty = "oid" -> 6 [] Ty = "real" -> 9
          [] Ty \in {"enum8", "enum32", "enum64"} -> 10 [] Ty = "utc" -> 23 [] Ty = "time" -> 24
Own  == <<Ident(Universal, <<UTag>>)>>
Expl == <<Ident(Context, <<1>>), Ident(Universal, <<UTag>>)>>
IdsOf(s) == IF s = 3 THEN Expl ELSE Own

\* Values (as Prim takes them) to set.
Values ==
  CASE Ty = "bool" -> {TRUE, FALSE}
    [] Ty = "null" -> {TRUE}
    [] Ty = "int" -> {<<0, 0, 0, 0, 0, 0, 0, 128>>, <<255, 255, 255, 255, 255, 255, 255, 127>>, <<128, 0, 0, 0, 0, 0, 0, 0>>}
    [] Ty \in {"enum8", "enum32", "enum64"} -> {<<0, 0, 0, 0, 0, 0, 0, 127>>, <<255, 255, 255, 255, 255, 255, 255, 128>>}
    [] Ty = "oid" -> {<<<<1>>, <<2>>, <<6, 72>>>>, <<<<2>>, <<7, 103>>>>, <<<<1>>, <<40>>>>, <<>>, <<<<0>>, <<0>>>>}
    [] Ty = "real" -> {<<63, 240, 0, 0, 0, 0, 0, 0>>, <<192, 9, 33, 251, 84, 68, 45, 24>>, <<128, 0, 0, 0, 0, 0, 0, 0>>}
    [] OTHER -> {<<0, 1>>, <<-1, 86399>>}
Hows == IF Ty \in TimeTypes THEN {"univ"} ELSE {"a", "c"}
\* Contents octets to decode, good and bad.
Received ==
  CASE Ty = "bool" -> {<<1>>, <<0>>, <<>>, <<0, 0>>}
    [] Ty = "null" -> {<<>>, <<0>>}
    [] Ty \in IntTypes -> {<<0, 0, 5>>, <<255>>, <<>>, <<1, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0, 128>>, <<1, 0, 0, 0, 0>>}
    [] Ty = "oid" -> {<<42, 134, 72>>, <<136, 55>>, <<>>, <<42, 128>>, <<42, 128, 1>>}
    [] Ty = "real" -> {<<128, 255, 3>>, <<>>, <<3, 49, 46, 53, 69, 48>>, <<64>>, <<68>>, <<128>>, <<2, 49>>}
    [] OTHER -> {TimeText(1, 2) \o <<90>>, TimeText(10957, 3), <<50, 48>>, TimeText(59, 0) \o OffsetText(-90)}

\* Headers a decode may meet: the right one, another tag, cut short, a long length form.
Framed(ids, c) ==
  LET w == Wrap(ids, Primitive, c) IN
  { w, SubSeq(w, 1, Len(w) - 1), w \o <<5, 0>> } \cup
  (IF Len(ids) = 1 THEN { <<w[1] + 64>> \o Tail(w), <<w[1], 129>> \o Tail(w), <<w[1] + 32>> \o Tail(w) }
   ELSE { Wrap(Own, Primitive, c), EncTLV(Context, Constructed, <<1>>, Wrap(Own, Primitive, c) \o <<5, 0>>) })

Ops == {[op |-> "set", s |-> s, how |-> h, v |-> v] : s \in {1, 3}, h \in Hows, v \in Values}
  \cup {[op |-> "copy", s |-> s, from |-> f, how |-> h] : s \in {1, 2}, f \in {1, 2}, h \in {0, 1}}
  \cup (IF Ty \in TimeTypes \cup {"oid"} THEN {} ELSE {[op |-> "copy", s |-> s, from |-> f, how |-> 0] : s \in {1, 3}, f \in {1, 3}})
  \cup UNION {{[op |-> "dec", s |-> s, b |-> b] : b \in UNION {Framed(IdsOf(s), c) : c \in Received}} : s \in {2, 3}}

\* A simple oracle of acceptance, for the model's own decodes.
Event(o) ==
  LET x == st[o.s] IN
  CASE o.op = "dec" -> [op |-> "dec", s |-> o.s, b |-> o.b, o |-> [enc |-> Wrap(x.ids, Primitive, x.c)],
                        ok |-> LET u == Unwrap(x.ids, Primitive, o.b) IN u.ok /\ Admits(Ty, u.content) # "no"]
    [] o.op = "set" -> [op |-> "set", s |-> o.s, how |-> o.how, v |-> o.v,
                        o |-> [enc |-> Wrap(x.ids, Primitive, IF Ty = "real" THEN <<>> ELSE x.c)]]
    [] OTHER -> [op |-> "copy", s |-> o.s, from |-> o.from, o |-> [enc |-> Wrap(x.ids, Primitive, x.c)]]

Init == hist = <<>> /\ st = [k \in 1..3 |-> [ty |-> Ty, ids |-> IdsOf(k), c |-> Fresh(Ty), tz |-> 0]]
Next == Len(hist) < Depth /\ \E o \in Ops : hist' = Append(hist, o) /\ st' = After(st, Event(o))

\* What is in an object can be sent, and what is sent is received as it was.
Sound == \A k \in 1..3 :
  LET c == st[k].c  u == Unwrap(st[k].ids, Primitive, Wrap(st[k].ids, Primitive, c)) IN
  /\ Admits(Ty, c) # "no"
  /\ u.ok /\ u.content = c
Refusal == [][\A k \in 1..3 : st'[k].c # st[k].c =>
               LET o == hist'[Len(hist')] IN o.s = k /\ (o.op = "dec" => Unwrap(st[k].ids, Primitive, o.b).ok)]_vars
=============================================================================
