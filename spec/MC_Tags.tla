------------------------------- MODULE MC_Tags -------------------------------
(***************************************************************************)
(* Tagging: every chain of at most MaxTags tags over every base type, in a *)
(* module of each tagging default, alone and in every kind of position.    *)
(* The octets are compared with the identifiers X.680 31.2.7 and 25.7      *)
(* prescribe, said on the wire; TLC -dump gives the types, which are       *)
(* replayed into generated code.                                           *)
(***************************************************************************)
EXTENDS Types

CONSTANTS MaxTags, Classes, Numbers

NoDv == [k |-> "none"]
Cp(n, t, p) == [n |-> n, t |-> t, p |-> p, dv |-> NoDv]
Truth == [k |-> "bool"]
Ref(n) == [k |-> "ref", mod |-> "", n |-> n, args |-> <<>>]
Tg(cls, num, mode, t) == [k |-> "tag", cls |-> cls, num |-> Digits(num, 128), mode |-> mode, t |-> t]
Alt == [k |-> "choice", ext |-> FALSE, c |-> <<Cp("x", Tg(Context, 0, "I", [k |-> "null"]), "m"), Cp("y", Tg(Application, 1, "I", Truth), "m")>>]
Row == [k |-> "seq", ext |-> FALSE, c |-> <<Cp("p", Tg(Context, 2, "I", Truth), "m")>>]
Def(t) == [params |-> <<>>, t |-> t]
Types1 == [RB |-> Def(Truth), RT |-> Def(Tg(Application, 5, "", Truth)), RC |-> Def(Alt), RS |-> Def(Row)]
Module(d) == [tags |-> d, imports |-> <<>>, types |-> Types1, vals |-> <<>>]

S == INSTANCE Schema WITH Resolved <- <<>>, Mods <- [EXPLICIT |-> Module("EXPLICIT"), IMPLICIT |-> Module("IMPLICIT"), AUTOMATIC |-> Module("AUTOMATIC")]

Bases == {"bool", "seq", "set", "choice", "of", "rb", "rt", "rc", "rs"}
Base(x) ==
  CASE x = "bool" -> Truth [] x = "seq" -> Row [] x = "set" -> [Row EXCEPT !.k = "set"] [] x = "choice" -> Alt
    [] x = "of" -> [k |-> "of", u |-> 16, t |-> Truth]
    [] x = "rb" -> Ref("RB") [] x = "rt" -> Ref("RT") [] x = "rc" -> Ref("RC") [] x = "rs" -> Ref("RS")
Value(x) == CASE x \in {"bool", "rb", "rt"} -> TRUE [] x \in {"seq", "set", "rs"} -> <<<<TRUE>>>> [] x \in {"choice", "rc"} -> <<2, TRUE>> [] x = "of" -> <<TRUE, FALSE>>
Body(x) == CASE x \in {"bool", "rb", "rt"} -> <<255>> [] x \in {"seq", "set", "rs"} -> <<130, 1, 255>> [] x = "of" -> <<1, 1, 255, 1, 1, 0>>
                [] x \in {"choice", "rc"} -> <<65, 1, 255>>          \* the alternative y, whole
IsCons(x) == x \notin {"bool", "rb", "rt"}
Positions == {"top", "comp", "opt", "alt", "elem"}

VARIABLES d, x, chain, pos          \* chain: tags from the inside out

RECURSIVE Apply(_, _, _)
Apply(t, c, k) == IF k > Len(c) THEN t ELSE Apply(Tg(c[k][1], c[k][2], c[k][3], t), c, k + 1)
Syntax == Apply(Base(x), chain, 1)
Whole ==
  CASE pos = "top" -> Syntax
    [] pos = "comp" -> [k |-> "seq", ext |-> FALSE, c |-> <<Cp("c0", Syntax, "m")>>]
    [] pos = "opt" -> [k |-> "set", ext |-> FALSE, c |-> <<Cp("c0", Syntax, "o")>>]
    [] pos = "alt" -> [k |-> "choice", ext |-> FALSE, c |-> <<Cp("c0", Syntax, "m")>>]
    [] pos = "elem" -> [k |-> "of", u |-> 17, t |-> Syntax]
Closed == [m |-> d, a |-> Whole, b |-> <<>>]
V == CASE pos = "top" -> Value(x) [] pos \in {"comp", "opt"} -> <<<<Value(x)>>>> [] pos = "alt" -> <<1, Value(x)>> [] pos = "elem" -> <<Value(x), Value(x)>>

Init == d \in {"EXPLICIT", "IMPLICIT", "AUTOMATIC"} /\ x \in Bases /\ chain = <<>> /\ pos \in Positions
Next == /\ Len(chain) < MaxTags /\ \E c \in Classes, n \in Numbers, m \in {"", "E", "I"} : chain' = Append(chain, <<c, n, m>>)
        /\ UNCHANGED <<d, x, pos>>

\* The identifiers on the wire from the inside out, by the words of the standard.
Explicit(m) == m = "E" \/ (m = "" /\ d = "EXPLICIT")
Start == CASE x = "bool" -> <<<<0, 1>>>> [] x = "seq" -> <<<<0, 16>>>> [] x = "set" -> <<<<0, 17>>>> [] x = "of" -> <<<<0, 16>>>> [] x = "rb" -> <<<<0, 1>>>>
           [] x = "rs" -> <<<<0, 16>>>> [] x = "rt" -> IF d = "EXPLICIT" THEN <<<<0, 1>>, <<1, 5>>>> ELSE <<<<1, 5>>>> [] OTHER -> <<>>
RECURSIVE Levels(_, _)
Levels(ls, c) ==
  IF c = <<>> THEN ls
  ELSE LET t == Head(c) IN
       IF ls = <<>> \/ Explicit(t[3]) THEN Levels(Append(ls, <<t[1], t[2]>>), Tail(c))
       ELSE Levels([ls EXCEPT ![Len(ls)] = <<t[1], t[2]>>], Tail(c))
Auto == d = "AUTOMATIC" /\ pos \in {"comp", "opt", "alt"} /\ chain = <<>>
All == Levels(Start, IF Auto THEN <<<<2, 0, "I">>>> ELSE chain)
RECURSIVE Nest(_, _, _)
Nest(ls, k, body) == IF k > Len(ls) THEN body
                     ELSE Nest(ls, k + 1, EncTLV(ls[k][1], IF k = 1 /\ ~IsCons(x) THEN Primitive ELSE Constructed, Digits(ls[k][2], 128), body))
One == Nest(All, 1, Body(x))
Wire == CASE pos \in {"top", "alt"} -> One
          [] pos = "comp" -> EncTLV(0, Constructed, <<16>>, One)
          [] pos = "opt" -> EncTLV(0, Constructed, <<17>>, One)
          [] pos = "elem" -> EncTLV(0, Constructed, <<17>>, One \o One)

Tagging ==
  /\ S!Enc(Closed, V) = Wire
  /\ LET r == S!Dec(Closed, Wire) IN r.s = "yes" /\ r.v = V
  \* Each identifier on the way matters, and so does the form.
  /\ pos \in {"top", "alt"} /\ (x \in {"choice", "rc"} => All # <<>>) =>
       \A k \in 1..Len(All) :
         /\ \A c \in {<<(All[k][1] + 1) % 4, All[k][2]>>, <<All[k][1], All[k][2] + 1>>} :
              S!Dec(Closed, Nest([All EXCEPT ![k] = c], 1, Body(x))).s = "no"
         /\ S!Dec(Closed, Nest(All \o <<All[k]>>, 1, Body(x))).s = "no"
=============================================================================
