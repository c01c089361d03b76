------------------------------ MODULE MC_Schema ------------------------------
(***************************************************************************)
(* Laws of Schema over every SEQUENCE, SET or CHOICE (Kind) of at most     *)
(* MaxComp components over a pool of component types, and every row of at  *)
(* most MaxWord elements over an alphabet of right, wrong and foreign      *)
(* elements.  TLC -dump gives the pairs, which are replayed into code      *)
(* generated for the same types.                                           *)
(***************************************************************************)
EXTENDS Types, TLC

CONSTANTS Kind, MaxComp, MaxWord, Ext

S == INSTANCE Schema WITH Resolved <- <<>>, Mods <- [M |-> [tags |-> "EXPLICIT", imports |-> <<>>, types |-> <<>>, vals |-> <<>>]]

NoDv == [k |-> "none"]
TagI(n, t) == [k |-> "tag", cls |-> Context, num |-> <<n>>, mode |-> "I", t |-> t]
TagE(n, t) == [k |-> "tag", cls |-> Context, num |-> <<n>>, mode |-> "E", t |-> t]
Truth == [k |-> "bool"]
Whole == [k |-> "int", nn |-> <<>>]
Octet == [k |-> "str", u |-> 4]
C(n, t, p, dv) == [n |-> n, t |-> t, p |-> p, dv |-> dv]

Slots == {"a", "b", "c", "d", "e"}
SlotType(s) ==
  CASE s = "a" -> TagI(0, Truth)
    [] s = "b" -> TagE(1, Whole)
    [] s = "c" -> [k |-> "choice", ext |-> FALSE, c |-> <<C("x", TagI(3, [k |-> "null"]), "m", NoDv), C("y", TagI(1, Octet), "m", NoDv)>>]
    [] s = "d" -> Octet
    [] s = "e" -> [k |-> "tag", cls |-> Application, num |-> <<0>>, mode |-> "I",
                   t |-> [k |-> "seq", ext |-> FALSE, c |-> <<C("p", Truth, "o", NoDv), C("q", [k |-> "null"], "o", NoDv)>>]]
SlotDefault(s) == CASE s = "a" -> [k |-> "bool", v |-> TRUE] [] s = "b" -> [k |-> "int", v |-> S!Octets8(7)] [] s = "d" -> [k |-> "str", v |-> <<97, 98>>]
Presences(s) == IF Kind = "choice" THEN {"m"} ELSE IF s \in {"c", "e"} THEN {"m", "o"} ELSE {"m", "o", "d"}
SlotValues(s) ==
  CASE s = "a" -> {TRUE, FALSE} [] s = "b" -> {S!Octets8(7), S!Octets8(-300)}
    [] s = "c" -> {<<1, TRUE>>, <<2, <<1, 2>>>>} [] s = "d" -> {<<>>, <<97, 98>>}
    [] s = "e" -> {<<<<>>, <<>>>>, <<<<TRUE>>, <<TRUE>>>>}
Elem == << <<128, 1, 255>>, <<161, 3, 2, 1, 5>>, <<131, 0>>, <<129, 1, 7>>, <<4, 1, 120>>, <<96, 3, 1, 1, 0>>,     \* of a, b, c, c, d, e
           <<137, 0>>, <<128, 2, 1, 1>>, <<160, 3, 1, 1, 255>> >>                                                   \* foreign, bad contents, wrong form

VARIABLES cs, w
T(x) == [m |-> "M", b |-> <<>>,
         a |-> [k |-> Kind, ext |-> Ext,
                c |-> [k \in 1..Len(x) |-> C(<<"c0", "c1", "c2", "c3">>[k], SlotType(x[k][1]), x[k][2], IF x[k][2] = "d" THEN SlotDefault(x[k][1]) ELSE NoDv)]]]
Comps(x) == S!Components(S!Top(T(x)))
Valid(x) == IF Kind = "seq" THEN S!SeqDistinct(Comps(x)) ELSE S!Distinct(Comps(x))

Init == cs = <<>> /\ w = <<>>
Next == \/ /\ w = <<>> /\ Len(cs) < MaxComp
           /\ \E s \in Slots : \E p \in Presences(s) : Valid(Append(cs, <<s, p>>)) /\ cs' = Append(cs, <<s, p>>)
           /\ w' = <<>>
        \/ /\ Len(w) < MaxWord /\ (Kind = "choice" => cs # <<>>)
           /\ \E e \in 1..Len(Elem) : w' = Append(w, e)
           /\ cs' = cs

RECURSIVE Cat(_, _)
Cat(x, k) == IF k > Len(x) THEN <<>> ELSE Elem[x[k]] \o Cat(x, k + 1)
Octs(x) == IF Kind = "choice" THEN Cat(x, 1) ELSE LET c == Cat(x, 1) IN <<IF Kind = "seq" THEN 48 ELSE 49, Len(c)>> \o c

\* What the elements are to the components.
Begins(s, e) == CASE s = "a" -> e \in {1, 8, 9} [] s = "b" -> e \in {2, 4} [] s = "c" -> e \in {2, 3, 4} [] s = "d" -> e = 5 [] s = "e" -> e = 6
Decodes(s, e) == CASE s = "a" -> e = 1 [] s = "b" -> e = 2 [] s = "c" -> e \in {3, 4} [] s = "d" -> e = 5 [] s = "e" -> e = 6
\* The identifiers by which b (constructed) and c.y (primitive) are told apart are the same.

\* A SEQUENCE, said without a parser: some of the components, in order, take the first elements.
SeqAccepts(x, y) ==
  \E P \in SUBSET (1..Len(x)) :
     LET pos(k) == Cardinality({l \in P : l < k}) + 1 IN        \* of the element component k takes or would take
     /\ \A k \in 1..Len(x) : x[k][2] = "m" => k \in P
     /\ Cardinality(P) <= Len(y)
     /\ \A k \in P : Decodes(x[k][1], y[pos(k)])
     /\ \A k \in (1..Len(x)) \ P : pos(k) > Len(y) \/ ~Begins(x[k][1], y[pos(k)])
SetAccepts(x, y) ==
  /\ \A j \in 1..Len(y) : (\E k \in 1..Len(x) : Begins(x[k][1], y[j])) \/ Ext
  /\ \A k \in 1..Len(x) : LET at == {j \in 1..Len(y) : Begins(x[k][1], y[j])} IN
        Cardinality(at) <= 1 /\ (x[k][2] = "m" => at # {}) /\ \A j \in at : Decodes(x[k][1], y[j])
ChoiceAccepts(x, y) == Len(y) >= 1 /\ \E k \in 1..Len(x) : Decodes(x[k][1], y[1])

Decoding ==
  LET d == S!Dec(T(cs), Octs(w)) IN
  /\ d.s \in {"yes", "no"}
  /\ (d.s = "yes") <=> (CASE Kind = "seq" -> SeqAccepts(cs, w) [] Kind = "set" -> SetAccepts(cs, w) [] OTHER -> ChoiceAccepts(cs, w))
  /\ Kind = "set" /\ Len(w) = 2 => d = S!Dec(T(cs), Octs(<<w[2], w[1]>>))
  /\ Kind = "set" /\ Len(w) = 3 => d = S!Dec(T(cs), Octs(<<w[2], w[1], w[3]>>)) /\ d = S!Dec(T(cs), Octs(<<w[1], w[3], w[2]>>))
  \* What was decoded is what its encoding decodes to, and encodes no differently.
  /\ d.s = "yes" => LET e == S!Enc(T(cs), d.v) IN S!Dec(T(cs), e) = d /\ S!Enc(T(cs), S!Dec(T(cs), e).v) = e

RECURSIVE Rows(_, _)
Rows(x, k) == IF k > Len(x) THEN {<<>>}
              ELSE {<<v>> \o r : v \in (IF x[k][2] = "m" THEN {} ELSE {<<>>}) \cup {<<u>> : u \in SlotValues(x[k][1])}, r \in Rows(x, k + 1)}
ValuesOf(x) == IF Kind = "choice" THEN UNION {{<<k, v>> : v \in SlotValues(x[k][1])} : k \in 1..Len(x)} ELSE Rows(x, 1)

\* Encoding: reversible, and different values have different encodings.
Encoding ==
  w = <<>> /\ (Kind = "choice" => cs # <<>>) =>
    LET V == {S!Fill(T(cs), v) : v \in ValuesOf(cs)} IN
    /\ \A v \in V : LET e == S!Enc(T(cs), v)  d == S!Dec(T(cs), e) IN d.s = "yes" /\ d.v = v /\ Size(ParseTLV(e)) = Len(e)
    /\ Cardinality({S!Enc(T(cs), v) : v \in V}) = Cardinality(V)
=============================================================================
