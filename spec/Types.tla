------------------------------- MODULE Types -------------------------------
(***************************************************************************)
(* Contents octets of the primitive types (X.690 clause 8), as relations    *)
(* between abstract values and octet strings.                              *)
(*                                                                         *)
(* Abstract values                                                         *)
(*   BOOLEAN              TRUE, FALSE                                      *)
(*   INTEGER, ENUMERATED  eight octets, two's complement                   *)
(*   OBJECT IDENTIFIER    sequence of arcs, each a base 128 digit string   *)
(*   REAL                 the eight octets of an IEEE 754 double           *)
(*   time                 [day |-> days since 1970-01-01, sec |-> 0..86399] *)
(***************************************************************************)
EXTENDS Ber, Big

-----------------------------------------------------------------------------
(* BOOLEAN, X.690 8.2                                                      *)
EncBool(v)    == IF v THEN <<255>> ELSE <<0>>
OkBool(c)     == Len(c) = 1
DecBool(c)    == c[1] # 0

(* INTEGER, X.690 8.3: the shortest two's complement form.                 *)
RECURSIVE EncInt(_)
EncInt(o) == IF Len(o) > 1 /\ ((o[1] = 0 /\ o[2] < 128) \/ (o[1] = 255 /\ o[2] >= 128))
             THEN EncInt(Tail(o)) ELSE o
OkInt(c)  == Len(c) \in 1..8
DecInt(c) == [k \in 1..(8 - Len(c)) |-> IF c[1] >= 128 THEN 255 ELSE 0] \o c

\* An eight octet number fits in n octets.
FitsOctets(o, n) == Len(EncInt(o)) <= n

-----------------------------------------------------------------------------
(* OBJECT IDENTIFIER, X.690 8.19.  An arc is a base 128 digit string.      *)
MaxArcDigits == 9        \* 63 bits

RECURSIVE AddSmall(_, _, _)
AddSmall(d, n, base) ==          \* n small
  IF n = 0 THEN d
  ELSE IF d = <<>> THEN Digits(n, base)
  ELSE LET t == d[Len(d)] + n IN
       Append(AddSmall(SubSeq(d, 1, Len(d) - 1), t \div base, base), t % base)

RECURSIVE SubSmall(_, _, _)
SubSmall(d, n, base) ==          \* d >= n
  IF n = 0 THEN d
  ELSE LET last == d[Len(d)] - (n % base)
           up   == (n \div base) + (IF last < 0 THEN 1 ELSE 0) IN
       Append(SubSmall(SubSeq(d, 1, Len(d) - 1), up, base), IF last < 0 THEN last + base ELSE last)

IsSmall(d, n) == Len(Strip(d)) = 1 /\ Strip(d)[1] < n      \* d < n, for n <= 128

ValidArc(a) == Len(a) >= 1 /\ Len(a) <= MaxArcDigits /\ \A k \in 1..Len(a) : a[k] \in 0..127
ValidOid(v) ==
  /\ Len(v) >= 2
  /\ \A k \in 1..Len(v) : ValidArc(v[k])
  /\ v[1] \in {<<0>>, <<1>>, <<2>>}
  /\ v[1] # <<2>> => IsSmall(v[2], 40)

FirstSub(v) == AddSmall(v[2], 40 * v[1][1], 128)
SubOctets(d) == [k \in 1..Len(d) |-> IF k < Len(d) THEN d[k] + 128 ELSE d[k]]
EncOid(v) == SubOctets(FirstSub(v)) \o
             Flatten([k \in 1..(Len(v) - 2) |-> SubOctets(v[k + 2])])

\* The subidentifiers of a contents octet string, unstripped, or <<>> if it is truncated.
RECURSIVE Subs(_, _)
Subs(c, cur) ==
  IF c = <<>> THEN <<>>
  ELSE IF Head(c) >= 128 THEN Subs(Tail(c), Append(cur, Head(c) - 128))
  ELSE <<Append(cur, Head(c))>> \o Subs(Tail(c), <<>>)

Complete(c) == c # <<>> /\ c[Len(c)] < 128
Split(d) == IF IsSmall(d, 40) THEN <<<<0>>, d>>
            ELSE IF IsSmall(d, 80) THEN <<<<1>>, Strip(SubSmall(d, 40, 128))>>
            ELSE <<<<2>>, Strip(SubSmall(d, 80, 128))>>

\* Legal contents: complete, and every arc fits in 63 bits.
NoOid == <<>>
DecOid(c) ==
  IF ~Complete(c) THEN NoOid
  ELSE LET s == Subs(c, <<>>)
           t == [k \in 1..Len(s) |-> Strip(s[k])]
           v == Split(t[1]) \o SubSeq(t, 2, Len(t)) IN
       IF \A k \in 1..Len(v) : Len(v[k]) <= MaxArcDigits THEN v ELSE NoOid

\* X.690 8.19.2: no subidentifier begins with a padding octet.
Padded(c) == Complete(c) /\ \E k \in 1..Len(Subs(c, <<>>)) : LET d == Subs(c, <<>>)[k] IN Len(d) > 1 /\ d[1] = 0

-----------------------------------------------------------------------------
(* Doubles and REAL, X.690 8.5.                                            *)
(* A finite number is [neg, bits, exp]: bits (most significant first,       *)
(* beginning and ending with 1; empty for zero) times two to the exp.      *)
BitsOf(o)   == [k \in 1..(8 * Len(o)) |-> (o[1 + (k - 1) \div 8] \div (2 ^ (7 - ((k - 1) % 8)))) % 2]

RECURSIVE StripLead(_)
StripLead(b) == IF b # <<>> /\ Head(b) = 0 THEN StripLead(Tail(b)) ELSE b
RECURSIVE TrailZeros(_, _)
TrailZeros(b, k) == IF k = 0 THEN 0 ELSE IF b[k] = 0 THEN 1 + TrailZeros(b, k - 1) ELSE 0

Num(neg, b, e) == LET s == StripLead(b)
                      z == TrailZeros(s, Len(s)) IN
                  [kind |-> IF s = <<>> THEN "zero" ELSE "num", neg |-> neg,
                   bits |-> SubSeq(s, 1, Len(s) - z), exp |-> IF s = <<>> THEN 0 ELSE e + z]
Special(k, neg) == [kind |-> k, neg |-> neg, bits |-> <<>>, exp |-> 0]

DoubleValue(o) ==
  LET neg == o[1] >= 128
      ef  == (o[1] % 128) * 16 + o[2] \div 16
      m   == SubSeq(BitsOf(o), 13, 64) IN
  IF ef = 2047 THEN (IF StripLead(m) = <<>> THEN Special("inf", neg) ELSE Special("nan", FALSE))
  ELSE IF ef = 0 THEN Num(neg, m, -1074)
  ELSE Num(neg, <<1>> \o m, ef - 1075)

BadReal == [ok |-> FALSE, form |-> "bad", v |-> Special("nan", FALSE), dec |-> <<>>, e10 |-> 0, soft |-> FALSE]
Good(v) == [ok |-> TRUE, form |-> "bin", v |-> v, dec |-> <<>>, e10 |-> 0, soft |-> FALSE]

HugeExp == 100000
\* Two's complement, clamped to -HugeExp..HugeExp.
SignedClamped(o) ==
  LET s == EncInt(o) IN
  IF Len(s) > 2 THEN (IF s[1] >= 128 THEN -HugeExp ELSE HugeExp)
  ELSE LET m == FromDigits(s, 256) IN IF s[1] >= 128 THEN m - 256 ^ Len(s) ELSE m

DecRealBinary(c) ==
  LET ee   == c[1] % 4
      base == (c[1] \div 16) % 4
      ff   == (c[1] \div 4) % 4
      long == ee = 3
      hd   == IF long THEN 2 ELSE 1                 \* octets before the exponent
      el   == IF ~long THEN ee + 1 ELSE IF Len(c) >= 2 THEN c[2] ELSE 0
      ex   == SubSeq(c, hd + 1, hd + el)
      man  == SubSeq(c, hd + el + 1, Len(c))
      nine == long /\ el > 1 /\ ((ex[1] = 255 /\ ex[2] >= 128) \/ (ex[1] = 0 /\ ex[2] < 128)) IN
  IF base = 3 \/ el = 0 \/ Len(c) <= hd + el \/ nine THEN BadReal
  ELSE LET k == CASE base = 0 -> 1 [] base = 1 -> 3 [] base = 2 -> 4
           n == StripLead(BitsOf(man)) IN
       \* A mantissa of zero is not foreseen by the encoding; refusing it is as good as zero.
       [Good(Num((c[1] \div 64) % 2 = 1, n, SignedClamped(ex) * k + ff)) EXCEPT !.soft = (n = <<>>)]

(* Decimal, ISO 6093 NR1, NR2, NR3.                                        *)
IsDigit(o) == o \in 48..57
RECURSIVE SkipSpaces(_)
SkipSpaces(s) == IF s # <<>> /\ Head(s) = 32 THEN SkipSpaces(Tail(s)) ELSE s
RECURSIVE SpanDigits(_)
SpanDigits(s) == IF s # <<>> /\ IsDigit(Head(s)) THEN 1 + SpanDigits(Tail(s)) ELSE 0
SkipSign(s) == IF s # <<>> /\ Head(s) \in {43, 45} THEN Tail(s) ELSE s
Vals(s) == [k \in 1..Len(s) |-> s[k] - 48]

DecRealDecimal(c) ==
  LET s0  == SkipSpaces(Tail(c))
      neg == s0 # <<>> /\ Head(s0) = 45
      s1  == SkipSign(s0)
      n1  == SpanDigits(s1)
      r1  == Drop(s1, n1)
      hasPoint == r1 # <<>> /\ Head(r1) \in {44, 46}
      r2  == IF hasPoint THEN Tail(r1) ELSE r1
      n2  == IF hasPoint THEN SpanDigits(r2) ELSE 0
      r3  == Drop(r2, n2)
      hasE == r3 # <<>> /\ Head(r3) \in {69, 101}
      r4  == IF hasE THEN Tail(r3) ELSE r3
      eneg == r4 # <<>> /\ Head(r4) = 45
      r5  == IF hasE THEN SkipSign(r4) ELSE r4
      n5  == IF hasE THEN SpanDigits(r5) ELSE 0
      end == Drop(r5, n5) = <<>>
      ed  == Strip(IF n5 = 0 THEN <<0>> ELSE Vals(Take(r5, n5)))
      e   == IF Len(ed) > 5 THEN HugeExp ELSE FromDigits(ed, 10)
      ds  == Vals(Take(s1, n1)) \o Vals(Take(r2, n2))
      form == CASE c[1] = 1 -> ~hasPoint /\ ~hasE /\ n1 > 0 /\ end
                [] c[1] = 2 -> hasPoint /\ ~hasE /\ n1 + n2 > 0 /\ end
                [] c[1] = 3 -> hasPoint /\ hasE /\ n1 + n2 > 0 /\ n5 > 0 /\ end
                [] OTHER -> FALSE IN
  IF ~form THEN BadReal
  ELSE [ok |-> TRUE, form |-> "dec", v |-> Special("num", neg), dec |-> Strip(ds),
        e10 |-> (IF eneg THEN -e ELSE e) - n2, soft |-> FALSE]

DecReal(c) ==
  IF c = <<>> THEN Good(Special("zero", FALSE))
  ELSE IF c[1] >= 128 THEN DecRealBinary(c)
  ELSE IF c[1] < 64 THEN DecRealDecimal(c)
  ELSE IF Len(c) # 1 THEN BadReal
  ELSE CASE c[1] = 64 -> Good(Special("inf", FALSE))
         [] c[1] = 65 -> Good(Special("inf", TRUE))
         [] c[1] = 66 -> Good(Special("nan", FALSE))
         [] c[1] = 67 -> Good(Special("zero", TRUE))
         [] OTHER -> BadReal

MaxDouble(neg) == [kind |-> "num", neg |-> neg, bits |-> [k \in 1..53 |-> 1], exp |-> 971]
MinDouble(neg) == [kind |-> "num", neg |-> neg, bits |-> <<1>>, exp |-> -1074]

RECURSIVE Incr(_)
Incr(b) == IF b = <<>> THEN <<1>>
           ELSE IF b[Len(b)] = 0 THEN SubSeq(b, 1, Len(b) - 1) \o <<1>>
           ELSE Append(Incr(SubSeq(b, 1, Len(b) - 1)), 0)

\* The doubles allowed for an exact binary value: itself, or the two around it.
DoublesFor(v) ==
  IF v.kind # "num" THEN {v}
  ELSE LET p == v.exp + Len(v.bits) - 1
           q == Max2(p - 52, -1074) IN
       IF p > 1023 THEN {Special("inf", v.neg), MaxDouble(v.neg)}
       ELSE IF p < -1075 THEN {Special("zero", v.neg), MinDouble(v.neg)}
       ELSE IF v.exp >= q THEN {v}
       ELSE LET low == SubSeq(v.bits, 1, p - q + 1)
                up  == Num(v.neg, Incr(low), q) IN
            {Num(v.neg, low, q),
             IF up.exp + Len(up.bits) - 1 > 1023 THEN Special("inf", v.neg) ELSE up}

\* Compares  d * 10^k  with  b (bits) * 2^r : -1, 0, 1.
CmpDec(d, k, b, r) ==
  BigCmp(BigTimesPow2(BigTimesPow10(BigOfDecimal(d), Max2(k, 0)), Max2(-r, 0)),
         BigTimesPow10(BigTimesPow2(BigOfBits(b), Max2(r, 0)), Max2(-k, 0)))

\* A double x is the decimal value dec * 10^e10, or one of the two around it.
DecimalOk(t, x) ==
  LET d == t.dec
      mag == Len(d) + t.e10 IN
  IF d = <<0>> THEN x.kind = "zero"
  ELSE IF mag > 400 THEN x \in {Special("inf", t.v.neg), MaxDouble(t.v.neg)}
  ELSE IF mag < -400 THEN x \in {Special("zero", t.v.neg), Special("zero", FALSE), MinDouble(t.v.neg)}
  ELSE CASE x.kind = "nan" -> FALSE
         [] x.kind = "inf" -> x.neg = t.v.neg /\ CmpDec(d, t.e10, [k \in 1..53 |-> 1], 971) = 1
         [] x.kind = "zero" -> CmpDec(d, t.e10, <<1>>, -1074) = -1
         [] OTHER ->
            LET p == x.exp + Len(x.bits) - 1
                q == Max2(p - 52, -1074)
                X == x.bits \o Zeros(x.exp - q)            \* x = X * 2^q
                \* one unit below; half a unit if X is a power of two (and not subnormal)
                below == IF Len(x.bits) = 1 /\ q > -1074
                         THEN CmpDec(d, t.e10, [k \in 1..53 |-> 1], q - 1)
                         ELSE CmpDec(d, t.e10, Decr(X), q)
                above == IF x = MaxDouble(x.neg) THEN -1 ELSE CmpDec(d, t.e10, Incr(X), q) IN
            x.neg = t.v.neg /\ below = 1 /\ above = -1

\* The double o (eight octets) is a right reading of the contents c.
RealReads(c, o) ==
  LET t == DecReal(c)
      x == DoubleValue(o) IN
  IF t.form = "dec" THEN DecimalOk(t, x)
  ELSE x \in DoublesFor(t.v) \/ (t.soft /\ x.kind = "zero")

\* The contents c denote exactly the double o.
RealDenotes(c, o) == DecReal(c).ok /\ DecReal(c).form = "bin" /\ DecReal(c).v = DoubleValue(o)

-----------------------------------------------------------------------------
(* Civil time.                                                             *)
Leap(y)  == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                  ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE DaysBefore(_, _)
DaysBefore(y, m) == IF m = 1 THEN 0 ELSE DaysBefore(y, m - 1) + MonthLen(y, m - 1)
\* Days from 0000-01-01 to the first day of year y (y >= 0).
YearStart(y) == IF y = 0 THEN 0
                ELSE 365 * y + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400 + 1
Epoch == 719528            \* days from 0000-01-01 to 1970-01-01
DayOf(y, m, d) == YearStart(y) + DaysBefore(y, m) + d - 1 - Epoch

YearOf(day) == LET n == day + Epoch
                   g == n \div 366          \* a lower bound
                   c == {y \in g..(g + (g \div 300) + 2) : YearStart(y) <= n} IN
               CHOOSE y \in c : \A z \in c : z <= y
Civil(day) ==
  LET y == YearOf(day)
      r == day + Epoch - YearStart(y)
      m == CHOOSE k \in 1..12 : DaysBefore(y, k) <= r /\ r < DaysBefore(y, k) + MonthLen(y, k) IN
  [y |-> y, m |-> m, d |-> r - DaysBefore(y, m) + 1]

Dec2(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Dec4(n) == Dec2(n \div 100) \o Dec2(n % 100)
TimeText(day, sec) ==
  LET c == Civil(day) IN
  Dec4(c.y) \o Dec2(c.m) \o Dec2(c.d) \o Dec2(sec \div 3600) \o Dec2((sec \div 60) % 60) \o Dec2(sec % 60)
CivilText(f) == Dec4(f[1]) \o Dec2(f[2]) \o Dec2(f[3]) \o Dec2(f[4]) \o Dec2(f[5]) \o Dec2(f[6])

OffsetText(min) == LET a == IF min < 0 THEN -min ELSE min IN
                   <<IF min < 0 THEN 45 ELSE 43>> \o Dec2(a \div 60) \o Dec2(a % 60)

\* Formats: 0 universal, 1 universal with an offset, 2 local.
FormatOf(c) == IF c # <<>> /\ c[Len(c)] = 90 THEN 0
               ELSE IF Len(c) >= 5 /\ c[Len(c) - 4] \in {43, 45} THEN 1 ELSE 2

At(c, k, n) == FromDigits([j \in 1..n |-> c[k + j - 1] - 48], 10)
NoTime == [ok |-> FALSE, free |-> FALSE, day |-> 0, sec |-> 0]
\* The instant a text denotes; tz: seconds east of Greenwich for local times.
\* The digits of a text with an offset are universal time.
ReadTime(c, tz) ==
  LET f == FormatOf(c)
      n == CASE f = 0 -> 15 [] f = 1 -> 19 [] f = 2 -> 14 IN
  IF Len(c) # n \/ \E k \in 1..14 : ~IsDigit(c[k]) THEN NoTime
  ELSE IF f = 1 /\ \E k \in 16..19 : ~IsDigit(c[k]) THEN NoTime
  ELSE LET y == At(c, 1, 4)  m == At(c, 5, 2)  d == At(c, 7, 2)
           h == At(c, 9, 2)  i == At(c, 11, 2) s == At(c, 13, 2) IN
       IF m \notin 1..12 THEN NoTime
       ELSE IF d < 1 \/ d > MonthLen(y, m) \/ h > 23 \/ i > 59 \/ s > 60 THEN NoTime
       ELSE LET t == h * 3600 + i * 60 + s - (IF f = 2 THEN tz ELSE 0)
                z == DayOf(y, m, d) IN
            [ok |-> TRUE, free |-> s = 60,        \* a leap second may be refused
             day |-> z + t \div 86400, sec |-> t % 86400]
=============================================================================
