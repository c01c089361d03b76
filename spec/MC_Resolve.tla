----------------------------- MODULE MC_Resolve -----------------------------
(***************************************************************************)
(* References between modules: every way in which three modules may each   *)
(* define or import (also what was imported) a type T and a value v, under *)
(* every combination of tagging defaults.  U refers to both by name, X to  *)
(* the T of another module from outside.  Meaning in Schema is compared    *)
(* with the octets the home of each name prescribes.  TLC -dump gives the  *)
(* schemas, which are compiled and replayed into the generated code.       *)
(***************************************************************************)
EXTENDS Types

CONSTANT Defaults       \* tagging defaults of the modules

VARIABLES pick, mods

S == INSTANCE Schema WITH Resolved <- <<>>, Mods <- mods

Names == {"A", "B", "C"}
Index(m) == CASE m = "A" -> 1 [] m = "B" -> 2 [] m = "C" -> 3
NoDv == [k |-> "none"]
Cp(n, t, p, dv) == [n |-> n, t |-> t, p |-> p, dv |-> dv]
Tg(cls, num, mode, t) == [k |-> "tag", cls |-> cls, num |-> <<num>>, mode |-> mode, t |-> t]
Whole == [k |-> "int", nn |-> <<>>]
Base(m) == CASE m = "A" -> Whole [] m = "B" -> [k |-> "bool"] [] m = "C" -> [k |-> "str", u |-> 4]
Ref(mod, n) == [k |-> "ref", mod |-> mod, n |-> n, args |-> <<>>]

\* Where each module has a name from: itself ("own"), another module or nowhere ("").
Sources == {s \in [Names -> {"own", ""} \cup Names] :
              /\ s["A"] \in {"own", ""} /\ s["B"] \in {"own", "", "A"} /\ s["C"] # "C"
              /\ \A m \in Names : s[m] \in Names => s[s[m]] # ""}
RECURSIVE HomeOf(_, _)
HomeOf(s, m) == IF s[m] = "own" THEN m ELSE HomeOf(s, s[m])

Visible(s, m) == s[m] # ""
UType(p, m) == [k |-> "seq", ext |-> FALSE,
                c |-> (IF Visible(p.t, m) THEN <<Cp("a", Ref("", "T"), "m", NoDv)>> ELSE <<>>)
                      \o (IF Visible(p.v, m) THEN <<Cp("n", Tg(Context, 7, "", Whole), "d", [k |-> "name", n |-> "v"])>> ELSE <<>>)]
\* Modules whose T may be referred to from m by the name of the module: those m imports something from.
From(p, m) == {x \in Names : p.t[m] = x \/ p.v[m] = x}
Outside(p, m) == {x \in From(p, m) : p.t[x] = "own"}
\* The code generated supports two explicit tags on top of each other only: see DESIGN.md.
Mode(p, m, x) == IF p.d[m] = "EXPLICIT" /\ p.d[x] = "EXPLICIT" THEN "I" ELSE ""
XType(p, m) == [k |-> "choice", ext |-> FALSE,
                c |-> (IF "A" \in Outside(p, m) THEN <<Cp("xa", Tg(Context, 1, Mode(p, m, "A"), Ref("A", "T")), "m", NoDv)>> ELSE <<>>)
                      \o (IF "B" \in Outside(p, m) THEN <<Cp("xb", Tg(Context, 2, Mode(p, m, "B"), Ref("B", "T")), "m", NoDv)>> ELSE <<>>)]
Def(t) == [params |-> <<>>, t |-> t]
Join(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]
One(n, x) == [y \in {n} |-> x]
Imports(p, m) ==
  LET from(x) == (IF p.t[m] = x THEN <<"T">> ELSE <<>>) \o (IF p.v[m] = x THEN <<"v">> ELSE <<>>)
      one(x) == IF from(x) = <<>> THEN <<>> ELSE <<[from |-> x, names |-> from(x)]>> IN
  one("A") \o one("B")
Module(p, m) ==
  [tags |-> p.d[m], imports |-> Imports(p, m),
   types |-> Join(One("U", Def(UType(p, m))),
             Join(IF Outside(p, m) # {} THEN One("X", Def(XType(p, m))) ELSE <<>>,
                  IF p.t[m] = "own" THEN One("T", Def(Tg(Application, Index(m), "", Base(m)))) ELSE <<>>)),
   vals |-> IF p.v[m] = "own" THEN One("v", [t |-> Whole, v |-> [k |-> "int", v |-> S!Octets8(10 * Index(m))]]) ELSE <<>>]

Init == /\ pick \in [t : Sources, v : Sources, d : [Names -> Defaults]]
        /\ mods = [m \in Names |-> Module(pick, m)]
Next == FALSE /\ UNCHANGED <<pick, mods>>

-----------------------------------------------------------------------------
Body(h) == CASE h = "A" -> <<5>> [] h = "B" -> <<255>> [] h = "C" -> <<1, 2, 3>>
Value(h) == CASE h = "A" -> S!Octets8(5) [] h = "B" -> TRUE [] h = "C" -> <<1, 2, 3>>
UNum(h) == CASE h = "A" -> 2 [] h = "B" -> 1 [] h = "C" -> 4
\* The T of h within a tag: none (<<>>), or class and number, implicit or explicit.
Expl(d) == d = "EXPLICIT"
TheT(h, outer, expl) ==
  LET base(c, n) == EncTLV(c, Primitive, <<n>>, Body(h))
      own == IF Expl(pick.d[h]) THEN EncTLV(Application, Constructed, <<Index(h)>>, base(0, UNum(h))) ELSE base(Application, Index(h)) IN
  IF outer = <<>> THEN own
  ELSE IF expl THEN EncTLV(Context, Constructed, outer, own)
  ELSE IF Expl(pick.d[h]) THEN EncTLV(Context, Constructed, outer, base(0, UNum(h))) ELSE base(Context, outer[1])

UValue(m, n) == (IF Visible(pick.t, m) THEN <<<<Value(HomeOf(pick.t, m))>>>> ELSE <<>>)
                \o (IF Visible(pick.v, m) THEN <<<<S!Octets8(n)>>>> ELSE <<>>)
\* The component a is tagged automatically where there is no tag in sight.
Auto(m) == pick.d[m] = "AUTOMATIC" /\ ~Visible(pick.v, m)
UWire(m, n) ==
  LET dflt == n = 10 * Index(HomeOf(pick.v, m))
      num == EncTLV(0, Primitive, <<2>>, <<n>>) IN
  EncTLV(0, Constructed, <<16>>,
    (IF Visible(pick.t, m) THEN TheT(HomeOf(pick.t, m), IF Auto(m) THEN <<0>> ELSE <<>>, FALSE) ELSE <<>>)
    \o (IF ~Visible(pick.v, m) \/ dflt THEN <<>>
        ELSE IF Expl(pick.d[m]) THEN EncTLV(Context, Constructed, <<7>>, num) ELSE EncTLV(Context, Primitive, <<7>>, <<n>>)))
Closed(m, n) == [m |-> m, a |-> Ref("", n), b |-> <<>>]

Resolves ==
  /\ \A m \in Names : \A n \in {10, 20, 30, 40} :
       LET w == UWire(m, n) IN
       /\ S!Enc(Closed(m, "U"), UValue(m, n)) = w
       /\ LET r == S!Dec(Closed(m, "U"), w) IN r.s = "yes" /\ r.v = UValue(m, n)
  /\ \A m \in Names : \A x \in Outside(pick, m) :
       LET w == TheT(x, <<Index(x)>>, Expl(pick.d[m]) /\ Mode(pick, m, x) = "")
           k == IF x = "B" /\ "A" \in Outside(pick, m) THEN 2 ELSE 1
           r == S!Dec(Closed(m, "X"), w) IN
       /\ S!Enc(Closed(m, "X"), <<k, Value(x)>>) = w
       /\ r.s = "yes" /\ r.v = <<k, Value(x)>>
=============================================================================
