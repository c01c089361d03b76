------------------------------ MODULE MC_Order ------------------------------
(***************************************************************************)
(* Recursion and forward references: every graph over three definitions,   *)
(* each a leaf, another name or a tagged one for a definition, a list of,  *)
(* a SEQUENCE with one member of, or a CHOICE between a leaf and one of    *)
(* them, in one module or with C in another.  A schema is one users may    *)
(* write if every definition has a value of finite size; that is so        *)
(* exactly when no definition needs itself (Needs), which is checked here, *)
(* as is that a smallest value of each definition survives encoding and    *)
(* decoding.  The meaning of a schema does not depend on the order of its  *)
(* definitions as they are a function of their names here.                 *)
(* TLC -dump gives the schemas, which are written in some order, compiled  *)
(* and driven.                                                             *)
(***************************************************************************)
EXTENDS Types

CONSTANTS Parts,        \* where C is: {"M"} or {"M", "N"}
          Shapes        \* kinds of definitions

VARIABLES pick, mods

S == INSTANCE Schema WITH Resolved <- <<>>, Mods <- mods

Names == {"A", "B", "C"}
NoDv == [k |-> "none"]
Cp(n, t, p) == [n |-> n, t |-> t, p |-> p, dv |-> NoDv]
Whole == [k |-> "int", nn |-> <<>>]
Ref(n) == [k |-> "ref", mod |-> "", n |-> n, args |-> <<>>]
ListOf(t) == [k |-> "of", u |-> 16, t |-> t]
Kind(k, x, p) == [k |-> k, x |-> x, p |-> p]
Kinds == {Kind("leaf", "", "")}
         \cup {Kind(k, x, "") : k \in Shapes \cap {"alias", "tagged", "of"}, x \in Names}
         \cup {Kind(k, x, p) : k \in Shapes \cap {"seq"}, x \in Names, p \in {"m", "o", "of"}}
         \cup {Kind(k, x, p) : k \in Shapes \cap {"first", "last"}, x \in Names, p \in {"m", "of"}}

Member(d) == IF d.p = "of" THEN ListOf(Ref(d.x)) ELSE Ref(d.x)
TypeOf(d) ==
  CASE d.k = "leaf" -> Whole
    [] d.k = "alias" -> Ref(d.x)
    [] d.k = "tagged" -> [k |-> "tag", cls |-> Application, num |-> <<7>>, mode |-> "", t |-> Ref(d.x)]
    [] d.k = "of" -> ListOf(Ref(d.x))
    [] d.k = "seq" -> [k |-> "seq", ext |-> FALSE, c |-> <<Cp("m1", Member(d), IF d.p = "o" THEN "o" ELSE "m")>>]
    [] d.k = "first" -> [k |-> "choice", ext |-> FALSE, c |-> <<Cp("m1", Member(d), "m"), Cp("leaf", Whole, "m")>>]
    [] d.k = "last" -> [k |-> "choice", ext |-> FALSE, c |-> <<Cp("leaf", Whole, "m"), Cp("m1", Member(d), "m")>>]

\* What a definition cannot do without: another definition, or nothing.
Hard(d) == IF d.k \in {"alias", "tagged"} \/ (d.k = "seq" /\ d.p = "m") THEN {d.x} ELSE {}
RECURSIVE Needs(_, _, _)
Needs(g, X, fuel) == IF fuel = 0 THEN X ELSE Needs(g, X \cup UNION {Hard(g[n]) : n \in X}, fuel - 1)
Finite(g) == \A n \in Names : n \notin Needs(g, Hard(g[n]), 3)
\* Names which have a value of at most so many levels.
RECURSIVE Valued(_, _)
Valued(g, levels) == IF levels = 0 THEN {} ELSE {n \in Names : Hard(g[n]) \subseteq Valued(g, levels - 1)}

\* A smallest value.
RECURSIVE Least(_, _)
Least(g, n) ==
  LET d == g[n] IN
  CASE d.k = "leaf" -> S!Octets8(5)
    [] d.k \in {"alias", "tagged"} -> Least(g, d.x)
    [] d.k = "of" -> <<>>
    [] d.k = "seq" -> IF d.p = "m" THEN <<<<Least(g, d.x)>>>> ELSE IF d.p = "o" THEN <<<<>>>> ELSE <<<<<<>>>>>>
    [] d.k = "first" -> <<2, S!Octets8(5)>>
    [] d.k = "last" -> <<1, S!Octets8(5)>>
\* One which contains values of what the definition refers to.
Larger(g, n) ==
  LET d == g[n]
      m == IF d.p = "of" THEN <<Least(g, d.x), Least(g, d.x)>> ELSE Least(g, d.x) IN
  CASE d.k = "of" -> <<Least(g, d.x), Least(g, d.x), Least(g, d.x)>>
    [] d.k = "seq" -> <<<<m>>>>
    [] d.k = "first" -> <<1, m>>
    [] d.k = "last" -> <<2, m>>
    [] OTHER -> Least(g, n)

Home(p, n) == IF n = "C" THEN p.c ELSE "M"
\* Modules must not import from each other in a circle.
Out(p, m) == {p.g[n].x : n \in {n \in Names : Home(p, n) = m}} \ ({""} \cup {n \in Names : Home(p, n) = m})
Cyclic(p) == Out(p, "M") # {} /\ Out(p, "N") # {}
Sorted(X) == (IF "A" \in X THEN <<"A">> ELSE <<>>) \o (IF "B" \in X THEN <<"B">> ELSE <<>>) \o (IF "C" \in X THEN <<"C">> ELSE <<>>)
Module(p, m) ==
  [tags |-> "AUTOMATIC",
   imports |-> IF Out(p, m) = {} THEN <<>> ELSE <<[from |-> IF m = "M" THEN "N" ELSE "M", names |-> Sorted(Out(p, m))]>>,
   types |-> [n \in {n \in Names : Home(p, n) = m} |-> [params |-> <<>>, t |-> TypeOf(p.g[n])]],
   vals |-> <<>>]

Unset == Kind("leaf", "", "")
Init == /\ pick \in {[g |-> [A |-> k, B |-> Unset, C |-> Unset], c |-> ""] : k \in Kinds}
        /\ mods = <<>>
Next == /\ pick.c = ""
        /\ \E b \in Kinds, c \in Kinds, m \in Parts :
             LET p == [g |-> [A |-> pick.g["A"], B |-> b, C |-> c], c |-> m] IN
             /\ ~Cyclic(p)
             /\ pick' = p
             /\ mods' = IF Finite(p.g) THEN [x \in {Home(p, n) : n \in Names} |-> Module(p, x)] ELSE <<>>

-----------------------------------------------------------------------------
Closed(n) == [m |-> Home(pick, n), a |-> Ref(n), b |-> <<>>]
Lives ==
  pick.c # "" =>
  /\ Finite(pick.g) <=> Valued(pick.g, 3) = Names
  /\ Finite(pick.g) =>
       \A n \in Names : \A v \in {Least(pick.g, n), Larger(pick.g, n)} :
         LET r == S!Dec(Closed(n), S!Enc(Closed(n), v)) IN r.s = "yes" /\ r.v = v
=============================================================================
