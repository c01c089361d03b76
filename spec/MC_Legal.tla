------------------------------ MODULE MC_Legal ------------------------------
(***************************************************************************)
(* Names present, absent and present twice: a module A which defines T (or *)
(* v) not at all, once or twice, which imports it from B, twice from B,    *)
(* from a module there is not, or not at all, where B defines it not at    *)
(* all, once or twice; and which uses it in one position of a definition   *)
(* U, by its name or from outside (B.T, Z.T).  Legality is compared with   *)
(* a count of what is there.  TLC -dump gives the schemas, which are given *)
(* to the compiler.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
L == INSTANCE Legal

VARIABLES pick, ms

Whole == [k |-> "int", nn |-> <<>>]
Octets(n) == <<0, 0, 0, 0, 0, 0, 0, n>>
Lit(n) == [k |-> "int", v |-> Octets(n)]
NoDv == [k |-> "none"]
Cp(n, t, p, dv) == [n |-> n, t |-> t, p |-> p, dv |-> dv]
Ref(mod, n, args) == [k |-> "ref", mod |-> mod, n |-> n, args |-> args]
Name(n) == [k |-> "name", n |-> n]
Coll(k, c) == [k |-> k, ext |-> FALSE, c |-> c]
Type(n, params, t) == [n |-> n, k |-> "type", params |-> params, t |-> t, v |-> NoDv]
Val(n, t, v) == [n |-> n, k |-> "value", params |-> <<>>, t |-> t, v |-> v]

TypeSpots == {"alias", "comp", "opt", "dflt", "set", "alt", "of", "setof", "tag", "deep", "value", "compof", "arg", "body", "idle", "tmpl", "none"}
ValueSpots == {"dflt", "dfltset", "value", "enum", "named", "chain", "none"}
Shape(spot) == CASE spot = "compof" -> Coll("seq", <<Cp("x", Whole, "m", NoDv)>>)
                 [] spot = "tmpl" -> Coll("seq", <<Cp("x", Ref("", "P", <<>>), "m", NoDv)>>)
                 [] OTHER -> Whole
Params(spot) == IF spot = "tmpl" THEN <<"P">> ELSE <<>>
G(r) == Type("G", <<"P">>, Coll("seq", <<Cp("p", Ref("", "P", <<>>), "m", NoDv), Cp("q", r, "m", NoDv)>>))
\* The definitions which use T.
Use(spot, mod) ==
  LET r == Ref(mod, "T", IF spot = "tmpl" THEN <<Whole>> ELSE <<>>)
      u(t) == <<Type("U", <<>>, t)>> IN
  CASE spot \in {"alias", "tmpl"} -> u(r)
    [] spot = "comp" -> u(Coll("seq", <<Cp("z", [k |-> "bool"], "m", NoDv), Cp("a", r, "m", NoDv)>>))
    [] spot = "opt" -> u(Coll("seq", <<Cp("a", r, "o", NoDv)>>))
    [] spot = "dflt" -> u(Coll("seq", <<Cp("a", r, "d", Lit(5))>>))
    [] spot = "set" -> u(Coll("set", <<Cp("a", r, "m", NoDv)>>))
    [] spot = "alt" -> u(Coll("choice", <<Cp("z", [k |-> "bool"], "m", NoDv), Cp("a", r, "m", NoDv)>>))
    [] spot = "of" -> u([k |-> "of", u |-> 16, t |-> r])
    [] spot = "setof" -> u([k |-> "of", u |-> 17, t |-> r])
    [] spot = "tag" -> u([k |-> "tag", cls |-> 2, num |-> <<3>>, mode |-> "", t |-> r])
    [] spot = "deep" -> u(Coll("seq", <<Cp("a", [k |-> "of", u |-> 16, t |-> Coll("choice", <<Cp("b", [k |-> "bool"], "m", NoDv), Cp("c", Coll("set", <<Cp("d", r, "o", NoDv)>>), "m", NoDv)>>)], "m", NoDv)>>))
    [] spot = "value" -> <<Val("u", r, Lit(5))>>
    [] spot = "compof" -> u(Coll("seq", <<Cp("z", [k |-> "bool"], "m", NoDv), Cp("", r, "components", NoDv)>>))
    [] spot = "arg" -> <<G([k |-> "bool"])>> \o u(Ref("", "G", <<r>>))
    [] spot = "body" -> <<G(r)>> \o u(Ref("", "G", <<[k |-> "bool"]>>))
    [] spot = "idle" -> <<G(r)>> \o u([k |-> "bool"])
    [] spot = "none" -> u([k |-> "bool"])
Enum == [k |-> "enum", items |-> <<[n |-> "v", v |-> <<>>], [n |-> "w", v |-> <<>>]>>]
UseV(spot) ==
  LET u(k, t) == <<Type("U", <<>>, Coll(k, <<Cp("a", t, "d", Name("v"))>>))>> IN
  CASE spot = "dflt" -> u("seq", Whole)
    [] spot = "dfltset" -> u("set", Ref("", "I", <<>>)) \o <<Type("I", <<>>, Whole)>>
    [] spot = "value" -> <<Val("u", Whole, Name("v"))>>
    [] spot = "enum" -> u("seq", Enum)              \* here v is an enumerator
    [] spot = "named" -> u("seq", Ref("", "I", <<>>)) \o <<Type("I", <<>>, [k |-> "int", nn |-> <<[n |-> "v", v |-> Octets(9)]>>])>>
    [] spot = "chain" -> u("seq", Whole) \o <<Val("y", Ref("", "I", <<>>), Name("v")), Type("I", <<>>, Whole)>>
    [] spot = "none" -> <<Val("u", Whole, Lit(1))>>

RECURSIVE Copies(_, _)
Copies(d, n) == IF n = 0 THEN <<>> ELSE <<d>> \o Copies(d, n - 1)
Imp(from, n, k) == [from |-> from, names |-> <<[n |-> n, k |-> k]>>]
Other == [n |-> "O", k |-> "type"]
\* B has something else to import, so that B.T may be written.
Froms(src, n, k) ==
  CASE src = "no" -> <<>>
    [] src = "B" -> <<Imp("B", n, k)>>
    [] src = "BB" -> <<Imp("B", n, k), Imp("B", n, k)>>
    [] src = "Z" -> <<Imp("Z", n, k)>>
    [] src = "other" -> <<[from |-> "B", names |-> <<Other>>]>>
    [] src = "both" -> <<[from |-> "B", names |-> <<Other, [n |-> n, k |-> k]>>]>>
Make(p) ==
  LET d == IF p.k = "type" THEN Type("T", Params(p.spot), Shape(p.spot)) ELSE Val("v", Whole, Lit(7))
      use == IF p.k = "type" THEN Use(p.spot, p.mod) ELSE UseV(p.spot) IN
  <<[name |-> "A", imports |-> Froms(p.src, d.n, p.k), defs |-> Copies(d, IF p.a = 2 THEN 1 ELSE p.a) \o use \o Copies(d, IF p.a = 2 THEN 1 ELSE 0)],
    [name |-> "B", imports |-> <<>>, defs |-> Copies(d, p.b) \o <<Type("O", <<>>, Whole)>>]>>

Picks == [k : {"type"}, a : 0..2, b : 0..2, src : {"no", "B", "BB", "Z", "other", "both"}, spot : TypeSpots, mod : {"", "B", "Z"}]
         \cup [k : {"value"}, a : 0..2, b : 0..2, src : {"no", "B", "BB", "Z", "other", "both"}, spot : ValueSpots, mod : {""}]
Init == pick \in {p \in Picks : p.spot = "none" => p.mod = ""} /\ ms = <<>>
Next == ms = <<>> /\ ms' = Make(pick) /\ UNCHANGED pick

-----------------------------------------------------------------------------
\* How often the name is there to be had, counted.
FromB == CASE pick.src \in {"B", "both"} -> 1 [] pick.src = "BB" -> 2 [] OTHER -> 0
Missing == IF pick.spot = "none" \/ (pick.k = "value" /\ pick.spot \in {"enum", "named"}) THEN FALSE
           ELSE IF pick.mod = "Z" THEN TRUE
           ELSE IF pick.mod = "B" THEN pick.b = 0
           ELSE pick.a + FromB = 0
Wrong == pick.a = 2 \/ pick.b = 2 \/ pick.src = "Z" \/ (FromB > 0 /\ pick.b = 0) \/ Missing
Unclear == (pick.a > 0 /\ pick.src \in {"B", "BB", "both", "Z"}) \/ FromB = 2 \/ (pick.mod = "B" /\ pick.src \notin {"B", "BB", "other", "both"})
Counted == ms = <<>> \/ L!Legality(ms) = (IF Wrong THEN "bad" ELSE IF Unclear THEN "open" ELSE "good")
RECURSIVE Turned(_)
Turned(s) == IF s = <<>> THEN <<>> ELSE Turned(Tail(s)) \o <<s[1]>>
AnyOrder == ms = <<>> \/ L!Legality(Turned([k \in 1..2 |-> [ms[k] EXCEPT !.defs = Turned(@), !.imports = Turned(@)]])) = L!Legality(ms)
=============================================================================
