---------------------------- MODULE MC_Constants ----------------------------
(***************************************************************************)
(* Constants of a schema: every short ENUMERATED type, some enumerators    *)
(* numbered and some not, some of them extension additions; its            *)
(* enumerators and the numbers of an INTEGER as DEFAULTs, written out or   *)
(* by way of value assignments, own and imported, under types that are     *)
(* references to it or tagged.  Checked against the text of X.680 20.3 and *)
(* 25.10 (8.4 of X.690: default values left out).  TLC -dump gives the     *)
(* schemas, which are compiled and replayed into the generated code.       *)
(***************************************************************************)
EXTENDS Types

CONSTANTS MaxItems,     \* enumerators
          Full,         \* up to this many in every way, beyond in two
          Numbers, Forms

Around == {0 - 1, 0, 1, 2, 5}

VARIABLES pick, mods

S == INSTANCE Schema WITH Resolved <- <<>>, Mods <- mods

Auto == 99
NoDv == [k |-> "none"]
Cp(n, t, p, dv) == [n |-> n, t |-> t, p |-> p, dv |-> dv]
Name(n) == [k |-> "name", n |-> n]
Ref(mod, n) == [k |-> "ref", mod |-> mod, n |-> n, args |-> <<>>]
Tg(num, t) == [k |-> "tag", cls |-> Context, num |-> <<num>>, mode |-> "", t |-> t]
Def(t) == [params |-> <<>>, t |-> t]

\* Numbers of the enumerators: distinct where stated.
Rows == UNION {{f \in [1..n -> Numbers \cup {Auto}] : \A i, j \in 1..n : i # j /\ f[i] # Auto => f[i] # f[j]} : n \in 1..MaxItems}
\* The enumerators after the extension marker are numbered by the compiler.
Cuts(f) == {0} \cup {c \in 1..Len(f) - 1 : \A i \in (c + 1)..Len(f) : f[i] = Auto}

EName(k) == CASE k = 1 -> "e1" [] k = 2 -> "e2" [] k = 3 -> "e3" [] k = 4 -> "e4" [] k = 5 -> "e5"
VName(k) == CASE k = 1 -> "v1" [] k = 2 -> "v2" [] k = 3 -> "v3" [] k = 4 -> "v4" [] k = 5 -> "v5"
WName(k) == CASE k = 1 -> "w1" [] k = 2 -> "w2" [] k = 3 -> "w3" [] k = 4 -> "w4" [] k = 5 -> "w5"
CName(k) == CASE k = 1 -> "c1" [] k = 2 -> "c2" [] k = 3 -> "c3" [] k = 4 -> "c4" [] k = 5 -> "c5"
EnumT(f, cut) == [k |-> "enum", root |-> cut, items |-> [k \in 1..Len(f) |-> [n |-> EName(k), v |-> IF f[k] = Auto THEN <<>> ELSE <<f[k]>>]]]
IntT == [k |-> "int", nn |-> <<[n |-> "one", v |-> S!Octets8(1)], [n |-> "low", v |-> S!Octets8(0 - 300)]>>]
Whole == [k |-> "int", nn |-> <<>>]

\* The types by whose name the enumeration and the integer are used.
Govern(g, base) == CASE g = "plain" -> Ref("", base)
                     [] g = "alias" -> Ref("", IF base = "E" THEN "EA" ELSE "NA")
                     [] g = "tagged" -> Ref("", IF base = "E" THEN "ET" ELSE "NT")
Kinds == {"plain", "alias", "tagged"}
Join(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]
One(n, x) == [y \in {n} |-> x]
RECURSIVE Merge(_, _, _)
Merge(f(_), k, n) == IF k > n THEN [x \in {} |-> 0] ELSE Join(f(k), Merge(f, k + 1, n))

\* What is written for the constant k: an enumerator or a name for it.
Written(p, k) == CASE p.f = "literal" -> EName(k) [] p.f = "value" -> VName(k) [] p.f = "chain" -> WName(k)
NWritten(p) == CASE p.f = "literal" -> "low" [] p.f = "value" -> "nv" [] p.f = "chain" -> "nw"

Constants(p, n) ==
  LET e == Govern(p.g, "E")
      two(k) == Join(One(VName(k), [t |-> e, v |-> Name(EName(k))]), One(WName(k), [t |-> Ref("", "E"), v |-> Name(VName(k))])) IN
  Join(Merge(two, 1, n),
  Join(One("nv", [t |-> Govern(p.g, "N"), v |-> Name("low")]),
  Join(One("nw", [t |-> Whole, v |-> Name("nv")]),
       \* a value named like an enumerator
       IF p.clash THEN One(EName(1), [t |-> Ref("", "E"), v |-> Name(EName(n))]) ELSE [x \in {} |-> 0])))
\* A value of the type stands for a constant of this name, unless an enumerator does.
Collection(p, n) ==
  [k |-> p.s, ext |-> FALSE,
   c |-> [k \in 1..n |-> Cp(CName(k), Tg(k, Govern(p.g, "E")), "d", Name(Written(p, k)))]
         \o <<Cp("m", Tg(20, Govern(p.g, "N")), "d", Name(NWritten(p))), Cp("o", Tg(21, Whole), "d", Name("nw"))>>]
Home(p, n) ==
  [tags |-> "IMPLICIT", imports |-> <<>>,
   types |-> Join(One("E", Def(EnumT(p.row, p.cut))), Join(One("EA", Def(Ref("", "E"))), Join(One("ET", Def(Tg(30, Ref("", "E")))),
             Join(One("N", Def(IntT)), Join(One("NA", Def(Ref("", "N"))), Join(One("NT", Def(Tg(30, Ref("", "N")))), One("C", Def(Collection(p, n))))))))),
   vals |-> Constants(p, n)]
\* Another module, which has all of this from the first.
Away(p, n) ==
  [tags |-> "IMPLICIT",
   imports |-> <<[from |-> "A", names |-> <<"E", "EA", "ET", "N", "NA", "NT", "nv", "nw">> \o [k \in 1..n |-> VName(k)] \o [k \in 1..n |-> WName(k)]]>>,
   types |-> One("D", Def(Collection(p, n))), vals |-> [x \in {} |-> 0]]

Ways == [f : Forms, g : Kinds, s : {"seq", "set"}, clash : BOOLEAN]
Two == {[f |-> "literal", g |-> "alias", s |-> "seq", clash |-> TRUE], [f |-> "chain", g |-> "tagged", s |-> "set", clash |-> FALSE]}
Picks == UNION {{[row |-> r, cut |-> c, f |-> w.f, g |-> w.g, s |-> w.s, clash |-> w.clash] :
                   c \in Cuts(r), w \in IF Len(r) <= Full THEN Ways ELSE Two} : r \in Rows}
Init == pick \in Picks /\ mods = <<>>
Next == mods = <<>> /\ UNCHANGED pick
        /\ mods' = [m \in {"A", "B"} |-> IF m = "A" THEN Home(pick, Len(pick.row)) ELSE Away(pick, Len(pick.row))]

-----------------------------------------------------------------------------
N == S!EnumNumbers(EnumT(pick.row, pick.cut).items)
Row == pick.row
Stated == {Row[k] : k \in {k \in 1..Len(Row) : Row[k] # Auto}}
Before(k) == {N[j] : j \in {j \in 1..k - 1 : Row[j] = Auto}}
\* Stated numbers are kept; the others go up from zero, past those in use and no further.
Numbered ==
  /\ Len(N) = Len(Row)
  /\ \A k \in 1..Len(Row) : Row[k] # Auto => N[k] = Row[k]
  /\ \A k \in 1..Len(Row) : Row[k] = Auto =>
       /\ N[k] >= 0 /\ N[k] \notin Stated
       /\ \A x \in Before(k) : x < N[k]
       /\ \A x \in 0..(N[k] - 1) : x \in Stated \cup Before(k)
  /\ \A i, j \in 1..Len(Row) : i # j => N[i] # N[j]

Closed(m, n) == [m |-> m, a |-> Ref("", n), b |-> <<>>]
Low == 0 - 300
Dflt == Eager([k \in 1..Len(Row) |-> <<S!Octets8(N[k])>>] \o <<<<S!Octets8(Low)>>, <<S!Octets8(Low)>>>>)
Other(k) == IF k <= Len(Row) THEN N[1 + (k % Len(Row))] ELSE 1
Body(n) == IF n >= 0 /\ n < 128 THEN <<n>> ELSE <<256 + n>>          \* the numbers used here are small
Outermost == IF pick.s = "seq" THEN 16 ELSE 17
\* With one component given another value, that component is there and no other.
Only(k, n) ==
  LET num == IF k <= Len(Row) THEN k ELSE 19 + k - Len(Row) IN
  IF k <= Len(Row) /\ n = N[k] THEN <<>> ELSE EncTLV(Context, Primitive, <<num>>, Body(n))
Denoted ==
  mods = <<>> \/ \A x \in {<<"A", "C">>, <<"B", "D">>} :
  LET c == Closed(x[1], x[2])
      cs == S!Components(S!Top(c)) IN
  /\ \A k \in 1..Len(cs) : S!Default(cs[k]) = Dflt[k][1]
  /\ S!Enc(c, Dflt) = EncTLV(0, Constructed, <<Outermost>>, <<>>)
  /\ S!Dec(c, EncTLV(0, Constructed, <<Outermost>>, <<>>)) = [s |-> "yes", v |-> Dflt]
  /\ \A k \in 1..Len(cs) :
       LET v == Eager([Dflt EXCEPT ![k] = <<S!Octets8(Other(k))>>])
           w == EncTLV(0, Constructed, <<Outermost>>, Only(k, Other(k))) IN
       S!Enc(c, v) = w /\ S!Dec(c, w) = [s |-> "yes", v |-> v]
  /\ \A n \in DOMAIN mods["A"].vals :
       LET a == mods["A"].vals[n]
           d == S!Denotes("A", [m |-> "A", a |-> a.t, b |-> <<>>], a.v) IN
       d \in {S!Octets8(N[k]) : k \in 1..Len(N)} \cup {S!Octets8(Low)}
=============================================================================
