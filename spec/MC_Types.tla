------------------------------ MODULE MC_Types ------------------------------
(***************************************************************************)
(* Laws of the contents codecs, over every octet string up to MaxLen over  *)
(* Alphabet beginning with one of Heads (Kind "int", "oid", "real", "dec"),*)
(* and over consecutive days (Kind "time").  The strings are replayed into *)
(* the code (TLC -dump).                                                   *)
(***************************************************************************)
EXTENDS Types
CONSTANTS Kind, Heads, Alphabet, MaxLen, Years
VARIABLE b

Init == IF Kind = "time" THEN b \in {<<DayOf(y, 1, 1), 0>> : y \in Years}
        ELSE b \in {<<>>} \cup {<<h>> : h \in Heads}
Next == IF Kind = "time"
        THEN \/ b[2] < 365 /\ b' = <<b[1] + 1, b[2] + 1>>
        ELSE b # <<>> /\ Len(b) < MaxLen /\ \E o \in Alphabet : b' = Append(b, o)

IntLaw == Kind = "int" /\ OkInt(b) =>
  LET v == DecInt(b)  c == EncInt(v) IN
  Len(v) = 8 /\ DecInt(c) = v /\ Len(c) <= Len(b) /\ EncInt(c) = c
OidLaw == Kind = "oid" => LET v == DecOid(b) IN
  /\ v # NoOid => ValidOid(v) /\ Len(EncOid(v)) <= Len(b) /\ DecOid(EncOid(v)) = v
  /\ v # NoOid /\ ~Padded(b) => EncOid(v) = b
  /\ v = NoOid => ~Complete(b) \/ Len(b) > 8
IsDouble(x) == \/ x.kind # "num"
               \/ Len(x.bits) <= 53 /\ x.exp >= -1074 /\ x.exp + Len(x.bits) <= 1024 /\ x.bits[1] = 1 /\ x.bits[Len(x.bits)] = 1
RealLaw == Kind = "real" => LET t == DecReal(b) IN
  t.ok => LET S == DoublesFor(t.v) IN
          /\ \A x \in S : IsDouble(x) /\ x.neg = t.v.neg
          /\ Cardinality(S) \in 1..2
          /\ IsDouble(t.v) => S = {t.v}
\* Small decimals agree with their exact binary value where there is one.
DecLaw == Kind = "dec" => LET t == DecReal(b) IN
  t.ok /\ t.form = "dec" =>
    /\ t.e10 = 0 => LET x == Num(t.v.neg, [k \in 1..64 |-> (FromDigits(t.dec, 10) \div (IF k < 34 THEN 2147483647 ELSE 2 ^ (64 - k))) % 2], 0) IN DecimalOk(t, x) /\ ~DecimalOk(t, Num(t.v.neg, <<1>> \o x.bits, x.exp))
    /\ ~DecimalOk(t, Special("nan", FALSE)) /\ ~DecimalOk(t, Special("inf", t.v.neg))
TimeLaw == Kind = "time" =>
  LET c == Civil(b[1]) IN
  /\ c.m \in 1..12 /\ c.d \in 1..MonthLen(c.y, c.m) /\ DayOf(c.y, c.m, c.d) = b[1]
  /\ \A s \in {0, 1, 59, 3599, 43200, 86399} :
       LET x == TimeText(b[1], s) IN
       /\ ReadTime(x \o <<90>>, 777).ok /\ ReadTime(x \o <<90>>, 777).day = b[1] /\ ReadTime(x \o <<90>>, 777).sec = s
       /\ FormatOf(x \o <<90>>) = 0 /\ FormatOf(x) = 2 /\ FormatOf(x \o OffsetText(-90)) = 1
       /\ ReadTime(x \o OffsetText(150), 5).day = b[1]
       /\ Len(x) = 14 /\ ReadTime(SubSeq(x, 1, 13), 0) = NoTime
=============================================================================
