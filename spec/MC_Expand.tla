------------------------------ MODULE MC_Expand ------------------------------
(***************************************************************************)
(* Parameterized types and COMPONENTS OF: every template body below with   *)
(* every pair of actual parameters, the template in the module of its use  *)
(* or in another one which has other types of the same names.  U is the    *)
(* instantiation, E the same type written out; Schema must give both the   *)
(* same meaning.  TLC -dump gives the schemas, which are compiled and      *)
(* replayed into the generated code.                                       *)
(***************************************************************************)
EXTENDS Types

CONSTANTS Bodies, Actuals, Defaults, Places

VARIABLES pick, mods

S == INSTANCE Schema WITH Resolved <- <<>>, Mods <- mods

NoDv == [k |-> "none"]
Cp(n, t, p) == [n |-> n, t |-> t, p |-> p, dv |-> NoDv]
Tg(cls, num, mode, t) == [k |-> "tag", cls |-> cls, num |-> <<num>>, mode |-> mode, t |-> t]
\* Components are tagged by hand unless that is automatic.
T(p, n, t) == IF p.d = "AUTOMATIC" THEN t ELSE Tg(Context, n, "", t)
Truth == [k |-> "bool"]
Whole == [k |-> "int", nn |-> <<>>]
Octet == [k |-> "str", u |-> 4]
Ref(mod, n) == [k |-> "ref", mod |-> mod, n |-> n, args |-> <<>>]
Use(n, x, y) == [k |-> "ref", mod |-> "", n |-> n, args |-> <<x, y>>]
Sq(c) == [k |-> "seq", ext |-> FALSE, c |-> c]
St(c) == [k |-> "set", ext |-> FALSE, c |-> c]
Of(u, t) == [k |-> "of", u |-> u, t |-> t]
Incl(t) == Cp("", t, "components")

PairBody(p, x, y) == Sq(<<Cp("x", T(p, 0, x), "m"), Cp("y", T(p, 1, y), "o")>>)
\* written: written out instead of used
Pair(p, x, y, written) == IF written THEN PairBody(p, x, y) ELSE Use("Pair", x, y)
RowBody(p) == <<Cp("r0", T(p, 0, Whole), "m"), Cp("r1", T(p, 1, Truth), "o")>>
Row(p) == [k |-> "seq", ext |-> TRUE, root |-> 2, c |-> RowBody(p) \o <<Cp("r2", T(p, 2, Whole), "o")>>]
\* Late as seen from the template: there is another Late where the template is used.
Late(p, written) == IF written /\ p.at = "N" THEN Ref("N", "Late") ELSE Ref("", "Late")

Body(p, x, y, w) ==
  CASE p.b = 1 -> Sq(<<Cp("a", T(p, 0, x), "m"), Cp("b", T(p, 1, y), "o")>>)
    [] p.b = 2 -> St(<<Cp("a", T(p, 0, y), "m"), Cp("b", T(p, 1, x), "m")>>)
    [] p.b = 3 -> [k |-> "choice", ext |-> FALSE, c |-> <<Cp("a", T(p, 0, x), "m"), Cp("b", T(p, 1, Of(16, y)), "m")>>]
    [] p.b = 4 -> Of(16, Sq(<<Cp("a", T(p, 0, x), "m"), Cp("b", T(p, 1, Of(17, y)), "m")>>))
    [] p.b = 5 -> Tg(Application, 3, "", Sq(<<Cp("a", T(p, 0, Pair(p, y, x, w)), "m")>>))
    [] p.b = 6 -> Sq(<<Cp("a", T(p, 0, Pair(p, Pair(p, x, y, w), y, w)), "m"), Cp("b", T(p, 1, Of(16, x)), "m")>>)
    [] p.b = 7 -> IF w THEN Sq(PairBody(p, x, y).c \o <<Cp("c", T(p, 2, Truth), "m")>>)
                  ELSE Sq(<<Incl(Pair(p, x, y, w)), Cp("c", T(p, 2, Truth), "m")>>)
    [] p.b = 8 -> LET c == <<Cp("f", T(p, 0, x), "o"), Cp("g", T(p, 1, Truth), "m")>> IN
                  IF w THEN St(<<Cp("c", T(p, 2, y), "m")>> \o c) ELSE St(<<Cp("c", T(p, 2, y), "m"), Incl(St(c))>>)
    [] p.b = 9 -> Sq(<<Cp("a", T(p, 0, Sq(<<Cp("x", T(p, 0, x), "m"), Cp("y", T(p, 1, y), "m")>>)), "o"), Cp("b", T(p, 1, Late(p, w)), "m")>>)
    [] p.b = 10 -> LET c == <<Cp("c", T(p, 5, x), "m"), Cp("d", T(p, 6, y), "m")>> IN
                   Sq((IF w THEN RowBody(p) ELSE <<Incl(Ref("", "Row"))>>) \o c)
\* Actual parameters, from where the template is used
Actual(p, k, w) ==
  CASE k = 1 -> Truth [] k = 2 -> Whole [] k = 3 -> Ref("", "Late")
    [] k = 4 -> Sq(<<Cp("s", T(p, 0, Octet), "m")>>)
    [] k = 5 -> Of(16, Whole)
    [] k = 6 -> Pair(p, Truth, Whole, w)
    [] k = 7 -> Tg(Context, 5, "I", Octet)
    [] k = 8 -> [k |-> "choice", ext |-> FALSE, c |-> <<Cp("p", T(p, 0, [k |-> "null"]), "m"), Cp("q", T(p, 1, Truth), "m")>>]

\* P and Q are names of types as well: formal parameters hide them.
Templates(p) ==
  [Late |-> [params |-> <<>>, t |-> Tg(Application, 9, "I", Truth)],
   Pair |-> [params |-> <<"P", "Q">>, t |-> PairBody(p, Ref("", "P"), Ref("", "Q"))],
   Row |-> [params |-> <<>>, t |-> Row(p)],
   P |-> [params |-> <<>>, t |-> Tg(Application, 10, "", Octet)],
   Tm |-> [params |-> <<"Q", "P">>, t |-> Body(p, Ref("", "Q"), Ref("", "P"), FALSE)]]
Uses(p) ==
  [U |-> [params |-> <<>>, t |-> Use("Tm", Actual(p, p.x, FALSE), Actual(p, p.y, FALSE))],
   E |-> [params |-> <<>>, t |-> Body(p, Actual(p, p.x, TRUE), Actual(p, p.y, TRUE), TRUE)]]
Join(f, g) == [n \in DOMAIN f \cup DOMAIN g |-> IF n \in DOMAIN f THEN f[n] ELSE g[n]]
Elsewhere(p) == [Late |-> [params |-> <<>>, t |-> Sq(<<Cp("l", Whole, "m")>>)], Q |-> [params |-> <<>>, t |-> Octet]]
Mods(p) ==
  IF p.at = "M" THEN [M |-> [tags |-> p.d, imports |-> <<>>, types |-> Join(Templates(p), Uses(p)), vals |-> <<>>]]
  ELSE [N |-> [tags |-> p.d, imports |-> <<>>, types |-> Templates(p), vals |-> <<>>],
        M |-> [tags |-> p.d, imports |-> <<[from |-> "N", names |-> <<"Tm", "Pair">>]>>, types |-> Join(Elsewhere(p), Uses(p)), vals |-> <<>>]]

Init == /\ pick \in {p \in [b : Bodies, x : Actuals, y : Actuals, d : Defaults, at : Places] :
                       \* a tag which is written stops automatic tagging; what then a parameter is remains open
                       p.d = "AUTOMATIC" => 7 \notin {p.x, p.y}}
        /\ mods = Mods(pick)
Next == FALSE /\ UNCHANGED <<pick, mods>>

-----------------------------------------------------------------------------
AV(p, k) ==
  CASE k = 1 -> FALSE [] k = 2 -> S!Octets8(-129) [] k = 3 -> IF p.at = "N" THEN <<<<S!Octets8(3)>>>> ELSE TRUE
    [] k = 4 -> <<<<<<7, 8>>>>>> [] k = 5 -> <<S!Octets8(1), S!Octets8(300)>> [] k = 6 -> <<<<TRUE>>, <<S!Octets8(9)>>>>
    [] k = 7 -> <<1>> [] k = 8 -> <<2, TRUE>>
Values(p) ==
  LET x == AV(p, p.x) y == AV(p, p.y) IN
  CASE p.b \in {1} -> {<<<<x>>, <<y>>>>, <<<<x>>, <<>>>>}
    [] p.b = 2 -> {<<<<y>>, <<x>>>>}
    [] p.b = 3 -> {<<1, x>>, <<2, <<y, y>>>>, <<2, <<>>>>}
    [] p.b = 4 -> {<<<<<<x>>, <<<<y>>>>>>, <<<<x>>, <<<<>>>>>>>>}
    [] p.b = 5 -> {<<<<<<<<y>>, <<x>>>>>>>>}
    [] p.b = 6 -> {<<<<<<<<<<<<x>>, <<>>>>>>, <<y>>>>>>, <<<<x, x>>>>>>}
    [] p.b = 7 -> {<<<<x>>, <<y>>, <<TRUE>>>>, <<<<x>>, <<>>, <<FALSE>>>>}
    [] p.b = 8 -> {<<<<y>>, <<x>>, <<TRUE>>>>, <<<<y>>, <<>>, <<TRUE>>>>}
    [] p.b = 9 -> {<<<<<<<<x>>, <<y>>>>>>, <<TRUE>>>>, <<<<>>, <<FALSE>>>>}
    [] p.b = 10 -> {<<<<S!Octets8(1)>>, <<TRUE>>, <<x>>, <<y>>>>, <<<<S!Octets8(1)>>, <<>>, <<x>>, <<y>>>>}

C(n) == [m |-> "M", a |-> Ref("", n), b |-> <<>>]
Cut(w, k) == SubSeq(w, 1, k)
\* The instantiation and the type written out mean the same.
SameMeaning ==
  \A v \in Values(pick) :
    LET w == S!Enc(C("E"), v) IN
    /\ S!Enc(C("U"), v) = w
    /\ LET r == S!Dec(C("U"), w) IN r.s = "yes" /\ r.v = v
    /\ S!Dec(C("E"), w) = S!Dec(C("U"), w)
    /\ \A o \in {Cut(w, Len(w) - 1), Cut(w, 1) \o <<w[2] - 1>> \o SubSeq(w, 3, Len(w)), <<w[1] + 1>> \o SubSeq(w, 2, Len(w)),
                 Cut(w, 2) \o <<w[IF Len(w) > 2 THEN 3 ELSE 1] + 1>> \o SubSeq(w, 4, Len(w))} :
         S!Dec(C("E"), o) = S!Dec(C("U"), o)
=============================================================================
